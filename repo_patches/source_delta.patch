From fd6e49f02f39f80ccf4eb9b5bf0ccc2d6efbd298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:32 +0000
Subject: [PATCH 01/66] fix: Cubatic: seed the generator per replicate, not per
 chunk of the parallel loop

The annealing generator was seeded from the first replicate of whatever range
the scheduler handed to a thread, so with more than one replicate the order
parameter for a given seed depended on the thread count and on scheduling.
---
 freud/order/Cubatic.cc | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/freud/order/Cubatic.cc b/freud/order/Cubatic.cc
index 854de27..5499861 100644
--- a/freud/order/Cubatic.cc
+++ b/freud/order/Cubatic.cc
@@ -260,20 +260,19 @@ void Cubatic::compute(const quat<float>* orientations, unsigned int num_orientat
     util::ManagedArray<quat<float>> p_cubatic_orientation(m_n_replicates);
 
     util::forLoopWrapper(0, m_n_replicates, [&](size_t begin, size_t end) {
-        // create thread-specific rng
-        const auto thread_start = static_cast<unsigned int>(begin);
-
-        std::vector<unsigned int> seed_seq(3);
-        seed_seq[0] = m_seed;
-        seed_seq[1] = thread_start;
-        seed_seq[2] = 0xffaabb;
-        std::seed_seq seed(seed_seq.begin(), seed_seq.end());
-        std::mt19937 rng(seed);
-        std::uniform_real_distribution<float> base_dist(0, 1);
-        auto dist = [&]() { return base_dist(rng); };
-
         for (size_t i = begin; i < end; i++)
         {
+            // create replicate-specific rng, so that the result does not depend
+            // on how the replicates are divided among the threads
+            std::vector<unsigned int> seed_seq(3);
+            seed_seq[0] = m_seed;
+            seed_seq[1] = static_cast<unsigned int>(i);
+            seed_seq[2] = 0xffaabb;
+            std::seed_seq seed(seed_seq.begin(), seed_seq.end());
+            std::mt19937 rng(seed);
+            std::uniform_real_distribution<float> base_dist(0, 1);
+            auto dist = [&]() { return base_dist(rng); };
+
             // need to generate random orientation
             quat<float> cubatic_orientation = calcRandomQuaternion(dist);
             quat<float> new_orientation = cubatic_orientation;
-- 
2.43.0


From b9e692ef4b31c4d76daf645228e0de0392991828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:05 +0000
Subject: [PATCH 02/66] fix: GaussianDensity, SphereVoxelization: reach every
 bin within r_max

The range of bins searched around a point was int(r_max / bin width), which
leaves out a bin whose center is within r_max when the point is off center in
its own bin. A range that covers the whole of a periodic axis now visits each
of its bins once.
---
 freud/density/GaussianDensity.cc    | 26 +++++++++++++++++++-------
 freud/density/SphereVoxelization.cc | 26 +++++++++++++++++++-------
 2 files changed, 38 insertions(+), 14 deletions(-)

diff --git a/freud/density/GaussianDensity.cc b/freud/density/GaussianDensity.cc
index d28b667..8352e93 100644
--- a/freud/density/GaussianDensity.cc
+++ b/freud/density/GaussianDensity.cc
@@ -81,10 +81,15 @@ void GaussianDensity::compute(const freud::locality::NeighborQuery* nq, const fl
     const float grid_size_y = Ly / static_cast<float>(m_width.y);
     const float grid_size_z = m_box.is2D() ? 0 : Lz / static_cast<float>(m_width.z);
 
-    // Find the number of bins within r_max
-    const int bin_cut_x = int(m_r_max / grid_size_x);
-    const int bin_cut_y = int(m_r_max / grid_size_y);
-    const int bin_cut_z = m_box.is2D() ? 0 : int(m_r_max / grid_size_z);
+    // Find the number of bins within r_max, wherever in its own bin a point is:
+    // the center of a bin can be up to half a bin closer than the bin's index tells.
+    const int bin_cut_x = int((m_r_max / grid_size_x) + 0.5F);
+    const int bin_cut_y = int((m_r_max / grid_size_y) + 0.5F);
+    const int bin_cut_z = m_box.is2D() ? 0 : int((m_r_max / grid_size_z) + 0.5F);
+    // A cutoff that spans the whole box visits each bin of a periodic direction once.
+    const bool all_x = periodic.x && 2 * bin_cut_x + 1 >= int(m_width.x);
+    const bool all_y = periodic.y && 2 * bin_cut_y + 1 >= int(m_width.y);
+    const bool all_z = periodic.z && 2 * bin_cut_z + 1 >= int(m_width.z);
     const float r_max_sq = m_r_max * m_r_max;
     const float sigmasq = m_sigma * m_sigma;
     const float normalization_base = float(1.0) / std::sqrt(constants::TWO_PI * sigmasq);
@@ -109,9 +114,16 @@ void GaussianDensity::compute(const freud::locality::NeighborQuery* nq, const fl
                 bin_z = 0;
             }
 
+            const int first_x = all_x ? 0 : bin_x - bin_cut_x;
+            const int last_x = all_x ? int(m_width.x) - 1 : bin_x + bin_cut_x;
+            const int first_y = all_y ? 0 : bin_y - bin_cut_y;
+            const int last_y = all_y ? int(m_width.y) - 1 : bin_y + bin_cut_y;
+            const int first_z = all_z ? 0 : bin_z - bin_cut_z;
+            const int last_z = all_z ? int(m_width.z) - 1 : bin_z + bin_cut_z;
+
             // Reject bins that are outside the box in aperiodic directions
             // Only evaluate over bins that are within the cutoff
-            for (int k = bin_z - bin_cut_z; k <= bin_z + bin_cut_z; k++)
+            for (int k = first_z; k <= last_z; k++)
             {
                 if (!periodic.z && (k < 0 || k >= int(m_width.z)))
                 {
@@ -120,7 +132,7 @@ void GaussianDensity::compute(const freud::locality::NeighborQuery* nq, const fl
                 const float dz = (grid_size_z * static_cast<float>(k)) + (grid_size_z / float(2.0)) - point.z
                     - (Lz / float(2.0));
 
-                for (int j = bin_y - bin_cut_y; j <= bin_y + bin_cut_y; j++)
+                for (int j = first_y; j <= last_y; j++)
                 {
                     if (!periodic.y && (j < 0 || j >= int(m_width.y)))
                     {
@@ -129,7 +141,7 @@ void GaussianDensity::compute(const freud::locality::NeighborQuery* nq, const fl
                     const float dy = (grid_size_y * static_cast<float>(j)) + (grid_size_y / float(2.0))
                         - point.y - (Ly / float(2.0));
 
-                    for (int i = bin_x - bin_cut_x; i <= bin_x + bin_cut_x; i++)
+                    for (int i = first_x; i <= last_x; i++)
                     {
                         if (!periodic.x && (i < 0 || i >= int(m_width.x)))
                         {
diff --git a/freud/density/SphereVoxelization.cc b/freud/density/SphereVoxelization.cc
index a50cdef..482f28e 100644
--- a/freud/density/SphereVoxelization.cc
+++ b/freud/density/SphereVoxelization.cc
@@ -77,10 +77,15 @@ void SphereVoxelization::compute(const std::shared_ptr<locality::NeighborQuery>&
     const float grid_size_y = Ly / static_cast<float>(m_width.y);
     const float grid_size_z = m_box.is2D() ? 0 : Lz / static_cast<float>(m_width.z);
 
-    // Find the number of bins within r_max
-    const int bin_cut_x = int(m_r_max / grid_size_x);
-    const int bin_cut_y = int(m_r_max / grid_size_y);
-    const int bin_cut_z = m_box.is2D() ? 0 : int(m_r_max / grid_size_z);
+    // Find the number of bins within r_max, wherever in its own bin a point is:
+    // the center of a bin can be up to half a bin closer than the bin's index tells.
+    const int bin_cut_x = int((m_r_max / grid_size_x) + 0.5F);
+    const int bin_cut_y = int((m_r_max / grid_size_y) + 0.5F);
+    const int bin_cut_z = m_box.is2D() ? 0 : int((m_r_max / grid_size_z) + 0.5F);
+    // A cutoff that spans the whole box visits each bin of a periodic direction once.
+    const bool all_x = periodic.x && 2 * bin_cut_x + 1 >= int(m_width.x);
+    const bool all_y = periodic.y && 2 * bin_cut_y + 1 >= int(m_width.y);
+    const bool all_z = periodic.z && 2 * bin_cut_z + 1 >= int(m_width.z);
     const float r_max_sq = m_r_max * m_r_max;
 
     util::forLoopWrapper(0, n_points, [&](size_t begin, size_t end) {
@@ -94,9 +99,16 @@ void SphereVoxelization::compute(const std::shared_ptr<locality::NeighborQuery>&
             // In 2D, only loop over the z=0 plane
             const int bin_z = m_box.is2D() ? 0 : int((point.z + Lz / float(2.0)) / grid_size_z);
 
+            const int first_x = all_x ? 0 : bin_x - bin_cut_x;
+            const int last_x = all_x ? int(m_width.x) - 1 : bin_x + bin_cut_x;
+            const int first_y = all_y ? 0 : bin_y - bin_cut_y;
+            const int last_y = all_y ? int(m_width.y) - 1 : bin_y + bin_cut_y;
+            const int first_z = all_z ? 0 : bin_z - bin_cut_z;
+            const int last_z = all_z ? int(m_width.z) - 1 : bin_z + bin_cut_z;
+
             // Only evaluate over bins that are within the cutoff, rejecting bins
             // that are outside the box in aperiodic directions.
-            for (int k = bin_z - bin_cut_z; k <= bin_z + bin_cut_z; k++)
+            for (int k = first_z; k <= last_z; k++)
             {
                 if (!periodic.z && (k < 0 || k >= int(m_width.z)))
                 {
@@ -105,7 +117,7 @@ void SphereVoxelization::compute(const std::shared_ptr<locality::NeighborQuery>&
                 const float dz = (grid_size_z * static_cast<float>(k)) + (grid_size_z / float(2.0)) - point.z
                     - (Lz / float(2.0));
 
-                for (int j = bin_y - bin_cut_y; j <= bin_y + bin_cut_y; j++)
+                for (int j = first_y; j <= last_y; j++)
                 {
                     if (!periodic.y && (j < 0 || j >= int(m_width.y)))
                     {
@@ -114,7 +126,7 @@ void SphereVoxelization::compute(const std::shared_ptr<locality::NeighborQuery>&
                     const float dy = (grid_size_y * static_cast<float>(j)) + (grid_size_y / float(2.0))
                         - point.y - (Ly / float(2.0));
 
-                    for (int i = bin_x - bin_cut_x; i <= bin_x + bin_cut_x; i++)
+                    for (int i = first_x; i <= last_x; i++)
                     {
                         if (!periodic.x && (i < 0 || i >= int(m_width.x)))
                         {
-- 
2.43.0


From 609faaed100eaf1311d7a1eeaea94943e072ff86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:30 +0000
Subject: [PATCH 03/66] fix: ClusterProperties: weigh each point with its own
 mass

The masses were read from the user's array as if the points were ordered by
cluster, so the centers of mass were wrong whenever they are not.
---
 freud/cluster/ClusterProperties.cc | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/freud/cluster/ClusterProperties.cc b/freud/cluster/ClusterProperties.cc
index 0274e3d..a67fc0e 100644
--- a/freud/cluster/ClusterProperties.cc
+++ b/freud/cluster/ClusterProperties.cc
@@ -44,8 +44,9 @@ void ClusterProperties::compute(const std::shared_ptr<locality::NeighborQuery>&
     m_cluster_sizes = std::make_shared<util::ManagedArray<unsigned int>>(num_clusters);
     m_cluster_masses = std::make_shared<util::ManagedArray<float>>(num_clusters);
 
-    // Create a vector to store cluster points, used to compute center of mass
+    // Create vectors to store cluster points and their masses, used to compute center of mass
     std::vector<std::vector<vec3<float>>> cluster_points(num_clusters, std::vector<vec3<float>>());
+    std::vector<std::vector<float>> cluster_point_masses(num_clusters, std::vector<float>());
 
     // Start by determining the center of mass of each cluster. Since we are
     // given an array of points, the easiest way to do this is to loop over
@@ -58,23 +59,15 @@ void ClusterProperties::compute(const std::shared_ptr<locality::NeighborQuery>&
         (*m_cluster_sizes)[c]++;
         float const mass = (masses != nullptr) ? masses[i] : float(1.0);
         (*m_cluster_masses)[c] += mass;
+        cluster_point_masses[c].push_back(mass);
     }
 
     // Now that we have located all of the cluster vectors, compute the centers
-    const float* cluster_point_masses = masses;
     for (unsigned int c = 0; c < num_clusters; c++)
     {
         (*m_cluster_centers)[c] = nq->getBox().centerOfMass(cluster_points[c].data(), (*m_cluster_sizes)[c]);
         (*m_cluster_centers_of_mass)[c] = nq->getBox().centerOfMass(
-            cluster_points[c].data(), (*m_cluster_sizes)[c], cluster_point_masses);
-        if (masses == nullptr)
-        {
-            cluster_point_masses = nullptr;
-        }
-        else
-        {
-            cluster_point_masses = cluster_point_masses + (*m_cluster_sizes)[c];
-        }
+            cluster_points[c].data(), (*m_cluster_sizes)[c], cluster_point_masses[c].data());
     }
 
     // Now that we have determined the centers of mass for each cluster, tally
-- 
2.43.0


From 309746dbde596b4d443ea33a3cfbc8bb460d665f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 04/66] fix: neighbor filters: keep the particle counts of the
 filtered list

The filtered list took its numbers of points from the largest indices left in
it, so it did not fit its system when the last particles had no bonds, and an
empty list dereferenced the end of an empty container.
---
 freud/locality/FilterRAD.cc    |  3 ++-
 freud/locality/FilterSANN.cc   |  3 ++-
 freud/locality/NeighborList.cc | 45 +++++++---------------------------
 freud/locality/NeighborList.h  |  3 ++-
 4 files changed, 15 insertions(+), 39 deletions(-)

diff --git a/freud/locality/FilterRAD.cc b/freud/locality/FilterRAD.cc
index 9eb2715..dd2534f 100644
--- a/freud/locality/FilterRAD.cc
+++ b/freud/locality/FilterRAD.cc
@@ -127,7 +127,8 @@ void FilterRAD::compute(std::shared_ptr<NeighborQuery> nq, const vec3<float>* qu
     // sort final bonds array by distance
     tbb::parallel_sort(rad_bonds.begin(), rad_bonds.end(), compareNeighborDistance);
 
-    m_filtered_nlist = std::make_shared<NeighborList>(rad_bonds);
+    m_filtered_nlist = std::make_shared<NeighborList>(rad_bonds, sorted_nlist.getNumQueryPoints(),
+                                                      sorted_nlist.getNumPoints());
 };
 
 }; }; // namespace freud::locality
diff --git a/freud/locality/FilterSANN.cc b/freud/locality/FilterSANN.cc
index d66c31f..ea7b59c 100644
--- a/freud/locality/FilterSANN.cc
+++ b/freud/locality/FilterSANN.cc
@@ -99,7 +99,8 @@ void FilterSANN::compute(std::shared_ptr<NeighborQuery> nq, const vec3<float>* q
     // sort final bonds array by distance
     tbb::parallel_sort(sann_bonds.begin(), sann_bonds.end(), compareNeighborDistance);
 
-    m_filtered_nlist = std::make_shared<NeighborList>(sann_bonds);
+    m_filtered_nlist = std::make_shared<NeighborList>(sann_bonds, sorted_nlist.getNumQueryPoints(),
+                                                      sorted_nlist.getNumPoints());
 };
 
 }; }; // namespace freud::locality
diff --git a/freud/locality/NeighborList.cc b/freud/locality/NeighborList.cc
index 96baa23..8d4a06c 100644
--- a/freud/locality/NeighborList.cc
+++ b/freud/locality/NeighborList.cc
@@ -127,50 +127,23 @@ NeighborList::NeighborList(const vec3<float>* points, const vec3<float>* query_p
     });
 }
 
-NeighborList::NeighborList(std::vector<NeighborBond> bonds)
-    : m_distances(std::make_shared<util::ManagedArray<float>>(bonds.size())),
-      m_vectors(std::make_shared<util::ManagedArray<vec3<float>>>(bonds.size())),
+NeighborList::NeighborList(const std::vector<NeighborBond>& bonds, unsigned int num_query_points,
+                           unsigned int num_points)
+    : m_num_query_points(num_query_points), m_num_points(num_points), m_segments_counts_updated(false),
+      m_neighbors(std::make_shared<util::ManagedArray<unsigned int>>(std::vector<size_t> {bonds.size(), 2})),
+      m_distances(std::make_shared<util::ManagedArray<float>>(bonds.size())),
       m_weights(std::make_shared<util::ManagedArray<float>>(bonds.size())),
-      m_neighbors(std::make_shared<util::ManagedArray<unsigned int>>(std::vector<size_t> {bonds.size(), 2}))
+      m_vectors(std::make_shared<util::ManagedArray<vec3<float>>>(bonds.size())),
+      m_segments(std::make_shared<util::ManagedArray<unsigned int>>(num_query_points)),
+      m_counts(std::make_shared<util::ManagedArray<unsigned int>>(num_query_points))
 {
-    // keep track of maximum indices
-    using MaxIndex = tbb::enumerable_thread_specific<unsigned int>;
-    MaxIndex max_idx_query = 0;
-    MaxIndex max_idx_point = 0;
-
     // fill arrays in parallel
     util::forLoopWrapper(0, bonds.size(), [&](size_t begin, size_t end) {
-        MaxIndex::reference max_point_idx(max_idx_point.local());
-        MaxIndex::reference max_query_idx(max_idx_query.local());
         for (auto i = begin; i < end; ++i)
         {
-            auto bond = bonds[i];
-
-            // update max bond indices
-            if (max_point_idx < bond.getPointIdx())
-            {
-                max_point_idx = bond.getPointIdx();
-            }
-            if (max_query_idx < bond.getQueryPointIdx())
-            {
-                max_query_idx = bond.getQueryPointIdx();
-            }
-
-            // fill in array data
-            (*m_distances)(i) = bond.getDistance();
-            (*m_weights)(i) = bond.getWeight();
-            (*m_neighbors)(i, 0) = bond.getQueryPointIdx();
-            (*m_neighbors)(i, 1) = bond.getPointIdx();
-            (*m_vectors)(i) = bond.getVector();
+            setNeighborEntry(i, bonds[i]);
         }
     });
-
-    // set num points, query points as max of thread-local maxes
-    m_num_points = (*std::max_element(max_idx_point.begin(), max_idx_point.end())) + 1;
-    m_num_query_points = (*std::max_element(max_idx_query.begin(), max_idx_query.end())) + 1;
-    m_segments = std::make_shared<util::ManagedArray<unsigned int>>(m_num_query_points);
-    m_counts = std::make_shared<util::ManagedArray<unsigned int>>(m_num_query_points);
-    m_segments_counts_updated = false;
 }
 
 unsigned int NeighborList::getNumBonds() const
diff --git a/freud/locality/NeighborList.h b/freud/locality/NeighborList.h
index b73b844..14c2019 100644
--- a/freud/locality/NeighborList.h
+++ b/freud/locality/NeighborList.h
@@ -44,7 +44,8 @@ public:
                  const bool exclude_ii, const unsigned int num_points, const unsigned int num_query_points);
 
     //! Construct from vector of NeighborBonds
-    explicit NeighborList(std::vector<NeighborBond> bonds);
+    NeighborList(const std::vector<NeighborBond>& bonds, unsigned int num_query_points,
+                 unsigned int num_points);
 
     //! Return the number of bonds stored in this NeighborList
     unsigned int getNumBonds() const;
-- 
2.43.0


From 0378be81eb7a6728de08282c992fb140d2bccaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:53 +0000
Subject: [PATCH 05/66] fix: FilterRAD: keep the weights and vectors of the
 bonds it keeps

Bonds were re-emitted with weight 1 and the vector from the point to the query
point, the reverse of what the given neighbor list holds.
---
 freud/locality/FilterRAD.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/freud/locality/FilterRAD.cc b/freud/locality/FilterRAD.cc
index dd2534f..131bc55 100644
--- a/freud/locality/FilterRAD.cc
+++ b/freud/locality/FilterRAD.cc
@@ -47,6 +47,7 @@ void FilterRAD::compute(std::shared_ptr<NeighborQuery> nq, const vec3<float>* qu
     const auto& box = nq->getBox();
     const auto& sorted_neighbors = *sorted_nlist.getNeighbors();
     const auto& sorted_dist = *sorted_nlist.getDistances();
+    const auto& sorted_vecs = *sorted_nlist.getVectors();
     const auto& sorted_weights = *sorted_nlist.getWeights();
     const auto& sorted_counts = *sorted_nlist.getCounts();
 
@@ -93,7 +94,8 @@ void FilterRAD::compute(std::shared_ptr<NeighborQuery> nq, const vec3<float>* qu
                 // if no k blocks j, add a bond from i to j
                 if (good_neighbor)
                 {
-                    local_bonds.emplace_back(i, first_neighbor_idx, sorted_dist(first_idx + j), 1, v1);
+                    local_bonds.emplace_back(i, first_neighbor_idx, sorted_dist(first_idx + j),
+                                             sorted_weights(first_idx + j), sorted_vecs(first_idx + j));
                 }
                 else if (m_terminate_after_blocked)
                 {
-- 
2.43.0


From 842a3800090ead07538bdf24d83fc0e41ab66c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:46 +0000
Subject: [PATCH 06/66] fix: LinkCell: find the cell of points outside of the
 box

A negative cell coordinate was converted to an unsigned integer before the
modulo, so a query point outside of the box (such as those of a shifted
PMFTXYZ) started in an unrelated cell and missed neighbors.
---
 freud/locality/LinkCell.cc | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/freud/locality/LinkCell.cc b/freud/locality/LinkCell.cc
index 1d2cb9e..ec9fa70 100644
--- a/freud/locality/LinkCell.cc
+++ b/freud/locality/LinkCell.cc
@@ -355,14 +355,17 @@ unsigned int LinkCell::coordToIndex(unsigned int x, unsigned int y, unsigned int
 
 vec3<unsigned int> LinkCell::getCellCoord(const vec3<float>& p) const
 {
+    // Points may lie outside of the box, where the cell coordinates are negative.
+    const auto wrap_cell = [](float alpha, unsigned int dim) {
+        int const w = static_cast<int>(dim);
+        int const c = static_cast<int>(std::floor(alpha * float(dim))) % w;
+        return static_cast<unsigned int>(c < 0 ? c + w : c);
+    };
     vec3<float> const alpha = m_box.makeFractional(p);
     vec3<unsigned int> c;
-    c.x = (unsigned int) std::floor(alpha.x * float(m_celldim.x));
-    c.x %= m_celldim.x;
-    c.y = (unsigned int) std::floor(alpha.y * float(m_celldim.y));
-    c.y %= m_celldim.y;
-    c.z = (unsigned int) std::floor(alpha.z * float(m_celldim.z));
-    c.z %= m_celldim.z;
+    c.x = wrap_cell(alpha.x, m_celldim.x);
+    c.y = wrap_cell(alpha.y, m_celldim.y);
+    c.z = wrap_cell(alpha.z, m_celldim.z);
     return c;
 }
 
-- 
2.43.0


From 333e7fcdc6da35bd0979150be3a981b30f6aca33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:54 +0000
Subject: [PATCH 07/66] fix: LinkCell.cell_width: bind the method the property
 calls

---
 freud/locality/export-NeighborQuery.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freud/locality/export-NeighborQuery.cc b/freud/locality/export-NeighborQuery.cc
index 974f4b1..254f3b3 100644
--- a/freud/locality/export-NeighborQuery.cc
+++ b/freud/locality/export-NeighborQuery.cc
@@ -84,7 +84,7 @@ void export_LinkCell(nb::module_& module)
 {
     nb::class_<LinkCell, NeighborQuery>(module, "LinkCell")
         .def("__init__", &wrap::LinkCellConstructor)
-        .def("GetCellWidth", &LinkCell::getCellWidth);
+        .def("getCellWidth", &LinkCell::getCellWidth);
 }
 
 void export_RawPoints(nb::module_& module)
-- 
2.43.0


From 49fcd95d0281e25fed3cef4f0edee79edb6487ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:05 +0000
Subject: [PATCH 08/66] fix: AABBQuery: search up to r_max in nearest neighbor
 queries

The search stopped as soon as the next radius would have reached r_max, without
looking between the radius searched last and r_max, so neighbors in between
were left out when fewer than num_neighbors are closer.
---
 freud/locality/AABBQuery.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freud/locality/AABBQuery.cc b/freud/locality/AABBQuery.cc
index 2d607e9..50d65ee 100644
--- a/freud/locality/AABBQuery.cc
+++ b/freud/locality/AABBQuery.cc
@@ -220,6 +220,7 @@ NeighborBond AABBQueryIterator::next()
 
             // Break if there are enough neighbors, or if we are querying beyond the limits of
             // the periodic box.
+            const float r_searched = m_r_cur;
             m_r_cur *= m_scale;
 
             if (m_current_neighbors.size() >= m_num_neighbors)
@@ -228,7 +229,7 @@ NeighborBond AABBQueryIterator::next()
                 break;
             }
 
-            if ((m_r_cur >= m_r_max) || (m_r_cur >= max_plane_distance)
+            if ((r_searched >= m_r_max) || (m_r_cur >= max_plane_distance)
                 || ((m_all_bonds_minimum_distance.size() - m_query_points_below_r_min.size())
                     >= m_num_neighbors))
             {
-- 
2.43.0


From b153dcf1f860b414508397b5a698ddf02c23b985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:00 +0000
Subject: [PATCH 09/66] fix: CellQuery: iterators keep the grid of their own
 query

The grid is rebuilt by every query, under the feet of iterators of earlier
queries that are still being consumed, which then miss bonds, repeat them or
read freed memory.
---
 freud/locality/CellQuery.cc    |  5 ++++-
 freud/locality/NeighborQuery.h | 10 ++++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/freud/locality/CellQuery.cc b/freud/locality/CellQuery.cc
index 6cc263b..b273fdd 100644
--- a/freud/locality/CellQuery.cc
+++ b/freud/locality/CellQuery.cc
@@ -30,7 +30,10 @@ CellQuery::query(const vec3<float>* query_points, unsigned int n_query_points, Q
         this->buildGrid(query_args.r_max);
     }
 
-    return std::make_shared<NeighborQueryIterator>(this, query_points, n_query_points, query_args);
+    // The next query rebuilds the grid for its own r_max. The iterator keeps a copy so that
+    // it can be consumed after (or in alternation with) later queries.
+    const std::shared_ptr<const NeighborQuery> grid = std::make_shared<CellQuery>(*this);
+    return std::make_shared<NeighborQueryIterator>(grid, query_points, n_query_points, query_args);
 }
 
 std::shared_ptr<NeighborQueryPerPointIterator>
diff --git a/freud/locality/NeighborQuery.h b/freud/locality/NeighborQuery.h
index fc83024..ae53e54 100644
--- a/freud/locality/NeighborQuery.h
+++ b/freud/locality/NeighborQuery.h
@@ -373,6 +373,15 @@ public:
         m_iter = this->query(m_cur_p);
     }
 
+    //! Constructor for iterators that share ownership of the NeighborQuery
+    NeighborQueryIterator(const std::shared_ptr<const NeighborQuery>& neighbor_query,
+                          const vec3<float>* query_points, unsigned int num_query_points,
+                          const QueryArgs& qargs)
+        : NeighborQueryIterator(neighbor_query.get(), query_points, num_query_points, qargs)
+    {
+        m_owned_query = neighbor_query;
+    }
+
     //! Empty Destructor
     ~NeighborQueryIterator() = default;
 
@@ -482,6 +491,7 @@ public:
 
 protected:
     const NeighborQuery* m_neighbor_query;                 //!< Link to the NeighborQuery object.
+    std::shared_ptr<const NeighborQuery> m_owned_query;    //!< Keeps m_neighbor_query alive if shared.
     const vec3<float>* m_query_points;                     //!< Coordinates of the query points.
     unsigned int m_num_query_points;                       //!< The number of query points.
     const QueryArgs m_qargs;                               //!< The query arguments
-- 
2.43.0


From 8e8add865052b58dccf14ea6f91c830eeb32c8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:23 +0000
Subject: [PATCH 10/66] fix: accept read-only arrays in Box.contains,
 Box.center_of_mass, LocalDensity, LocalBondProjection,
 AngularSeparationNeighbor

The other methods take any array that has the right type and shape.
---
 freud/box/Box.h                                  |  4 ++--
 freud/box/export-Box.cc                          |  8 ++++----
 freud/box/export-Box.h                           |  4 ++--
 freud/density/export-LocalDensity.cc             |  4 ++--
 .../export-AngularSeparationNeighbor.cc          | 16 ++++++++--------
 freud/environment/export-LocalBondProjection.cc  | 16 ++++++++--------
 6 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/freud/box/Box.h b/freud/box/Box.h
index 7578ba5..0bf4594 100644
--- a/freud/box/Box.h
+++ b/freud/box/Box.h
@@ -370,7 +370,7 @@ public:
      *  \param masses Optional array of masses, of length Nvecs
      *  \return Center of mass as a vec3<float>
      */
-    vec3<float> centerOfMass(vec3<float>* vecs, size_t Nvecs, const float* masses = nullptr) const
+    vec3<float> centerOfMass(const vec3<float>* vecs, size_t Nvecs, const float* masses = nullptr) const
     {
         // This roughly follows the implementation in
         // https://en.wikipedia.org/wiki/Center_of_mass#Systems_with_periodic_boundary_conditions
@@ -466,7 +466,7 @@ public:
         \param n_points The number of points.
         \param contains_mask Mask of points inside the box.
     */
-    void contains(vec3<float>* points, const unsigned int n_points, bool* contains_mask) const
+    void contains(const vec3<float>* points, const unsigned int n_points, bool* contains_mask) const
     {
         util::forLoopWrapper(0, n_points, [&](size_t begin, size_t end) {
             std::transform(&points[begin], &points[end], &contains_mask[begin],
diff --git a/freud/box/export-Box.cc b/freud/box/export-Box.cc
index 2d86e68..dfc2d9c 100644
--- a/freud/box/export-Box.cc
+++ b/freud/box/export-Box.cc
@@ -59,11 +59,11 @@ void unwrap(const std::shared_ptr<Box>& box, const nb_array<const float>& vecs,
     box->unwrap(vecs_data, images_data, Nvecs, out_data);
 }
 
-std::vector<float> centerOfMass(const std::shared_ptr<Box>& box, const nb_array<float>& vecs,
+std::vector<float> centerOfMass(const std::shared_ptr<Box>& box, const nb_array<const float>& vecs,
                                 const nb_array<const float, nb::shape<-1>>& masses)
 {
     const unsigned int Nvecs = vecs.shape(0);
-    auto* vecs_data = reinterpret_cast<vec3<float>*>(vecs.data());
+    const auto* vecs_data = reinterpret_cast<const vec3<float>*>(vecs.data());
     const auto* masses_data = reinterpret_cast<const float*>(masses.data());
     auto com = box->centerOfMass(vecs_data, Nvecs, masses_data);
     return {com.x, com.y, com.z};
@@ -104,11 +104,11 @@ void computeAllDistances(const std::shared_ptr<Box>& box, const nb_array<const f
     box->computeAllDistances(query_points_data, n_query_points, points_data, n_points, distances_data);
 }
 
-void contains(const std::shared_ptr<Box>& box, const nb_array<float>& points,
+void contains(const std::shared_ptr<Box>& box, const nb_array<const float>& points,
               const nb_array<bool, nb::ndim<1>>& contains_mask)
 {
     const unsigned int n_points = points.shape(0);
-    auto* points_data = reinterpret_cast<vec3<float>*>(points.data());
+    const auto* points_data = reinterpret_cast<const vec3<float>*>(points.data());
     auto* contains_mask_data = reinterpret_cast<bool*>(contains_mask.data());
     box->contains(points_data, n_points, contains_mask_data);
 }
diff --git a/freud/box/export-Box.h b/freud/box/export-Box.h
index e88938b..068d0e4 100644
--- a/freud/box/export-Box.h
+++ b/freud/box/export-Box.h
@@ -29,7 +29,7 @@ void wrap(const std::shared_ptr<Box>& box, const nb_array<const float>& vecs, co
 void unwrap(const std::shared_ptr<Box>& box, const nb_array<const float>& vecs,
             const nb_array<const int>& images, const nb_array<float>& out);
 
-std::vector<float> centerOfMass(const std::shared_ptr<Box>& box, const nb_array<float>& vecs,
+std::vector<float> centerOfMass(const std::shared_ptr<Box>& box, const nb_array<const float>& vecs,
                                 const nb_array<const float, nanobind::shape<-1>>& masses);
 
 void center(const std::shared_ptr<Box>& box, const nb_array<float>& vecs,
@@ -43,7 +43,7 @@ void computeAllDistances(const std::shared_ptr<Box>& box, const nb_array<const f
                          const nb_array<const float>& points,
                          const nb_array<float, nanobind::ndim<2>>& distances);
 
-void contains(const std::shared_ptr<Box>& box, const nb_array<float>& points,
+void contains(const std::shared_ptr<Box>& box, const nb_array<const float>& points,
               const nb_array<bool, nanobind::ndim<1>>& contains_mask);
 
 }; }; }; // namespace freud::box::wrap
diff --git a/freud/density/export-LocalDensity.cc b/freud/density/export-LocalDensity.cc
index 55e5bcf..46b362c 100644
--- a/freud/density/export-LocalDensity.cc
+++ b/freud/density/export-LocalDensity.cc
@@ -20,11 +20,11 @@ namespace wrap {
 
 void computeLocalDensity(const std::shared_ptr<LocalDensity>& self,
                          const std::shared_ptr<locality::NeighborQuery>& points,
-                         nb_array<float, nanobind::shape<-1, 3>>& query_points,
+                         nb_array<const float, nanobind::shape<-1, 3>>& query_points,
                          const unsigned int num_query_points, std::shared_ptr<locality::NeighborList>& nlist,
                          const locality::QueryArgs& qargs)
 {
-    auto* query_points_data = reinterpret_cast<vec3<float>*>(query_points.data());
+    auto* query_points_data = reinterpret_cast<const vec3<float>*>(query_points.data());
     self->compute(points, query_points_data, num_query_points, nlist, qargs);
 }
 
diff --git a/freud/environment/export-AngularSeparationNeighbor.cc b/freud/environment/export-AngularSeparationNeighbor.cc
index b846697..2ff0af8 100644
--- a/freud/environment/export-AngularSeparationNeighbor.cc
+++ b/freud/environment/export-AngularSeparationNeighbor.cc
@@ -23,16 +23,16 @@ namespace wrap {
 
 void compute(std::shared_ptr<AngularSeparationNeighbor>& angular_separation,
              const std::shared_ptr<locality::NeighborQuery>& nq,
-             nb_array<float, nanobind::shape<-1, 4>>& orientations,
-             nb_array<float, nanobind::shape<-1, 3>>& query_points,
-             nb_array<float, nanobind::shape<-1, 4>>& query_orientations,
-             nb_array<float, nanobind::shape<-1, 4>>& equiv_orientations,
+             nb_array<const float, nanobind::shape<-1, 4>>& orientations,
+             nb_array<const float, nanobind::shape<-1, 3>>& query_points,
+             nb_array<const float, nanobind::shape<-1, 4>>& query_orientations,
+             nb_array<const float, nanobind::shape<-1, 4>>& equiv_orientations,
              const std::shared_ptr<locality::NeighborList>& nlist, const locality::QueryArgs& qargs)
 {
-    auto* orientations_data = reinterpret_cast<quat<float>*>(orientations.data());
-    auto* query_points_data = reinterpret_cast<vec3<float>*>(query_points.data());
-    auto* query_orientations_data = reinterpret_cast<quat<float>*>(query_orientations.data());
-    auto* equiv_orientations_data = reinterpret_cast<quat<float>*>(equiv_orientations.data());
+    auto* orientations_data = reinterpret_cast<const quat<float>*>(orientations.data());
+    auto* query_points_data = reinterpret_cast<const vec3<float>*>(query_points.data());
+    auto* query_orientations_data = reinterpret_cast<const quat<float>*>(query_orientations.data());
+    auto* equiv_orientations_data = reinterpret_cast<const quat<float>*>(equiv_orientations.data());
     const unsigned int n_equiv_orientations = equiv_orientations.shape(0);
     const unsigned int n_query_points = query_orientations.shape(0);
     angular_separation->compute(nq, orientations_data, query_points_data, query_orientations_data,
diff --git a/freud/environment/export-LocalBondProjection.cc b/freud/environment/export-LocalBondProjection.cc
index 4dca8b8..78b6541 100644
--- a/freud/environment/export-LocalBondProjection.cc
+++ b/freud/environment/export-LocalBondProjection.cc
@@ -23,16 +23,16 @@ namespace wrap {
 
 void compute(std::shared_ptr<LocalBondProjection>& local_bond_projection,
              const std::shared_ptr<locality::NeighborQuery>& nq,
-             nb_array<float, nanobind::shape<-1, 4>>& orientations,
-             nb_array<float, nanobind::shape<-1, 3>>& query_points,
-             nb_array<float, nanobind::shape<-1, 3>>& projected_vectors,
-             nb_array<float, nanobind::shape<-1, 4>>& equiv_orientations,
+             nb_array<const float, nanobind::shape<-1, 4>>& orientations,
+             nb_array<const float, nanobind::shape<-1, 3>>& query_points,
+             nb_array<const float, nanobind::shape<-1, 3>>& projected_vectors,
+             nb_array<const float, nanobind::shape<-1, 4>>& equiv_orientations,
              const std::shared_ptr<locality::NeighborList>& nlist, const locality::QueryArgs& qargs)
 {
-    auto* orientations_data = reinterpret_cast<quat<float>*>(orientations.data());
-    auto* query_points_data = reinterpret_cast<vec3<float>*>(query_points.data());
-    auto* proj_vectors_data = reinterpret_cast<vec3<float>*>(projected_vectors.data());
-    auto* equiv_orientations_data = reinterpret_cast<quat<float>*>(equiv_orientations.data());
+    auto* orientations_data = reinterpret_cast<const quat<float>*>(orientations.data());
+    auto* query_points_data = reinterpret_cast<const vec3<float>*>(query_points.data());
+    auto* proj_vectors_data = reinterpret_cast<const vec3<float>*>(projected_vectors.data());
+    auto* equiv_orientations_data = reinterpret_cast<const quat<float>*>(equiv_orientations.data());
     const unsigned int n_proj_vec = projected_vectors.shape(0);
     const unsigned int n_query_points = query_points.shape(0);
     const unsigned int n_equiv_orientations = equiv_orientations.shape(0);
-- 
2.43.0


From 0ff2625dc42973f8fa4c9b068127790d9d9cf25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:42 +0000
Subject: [PATCH 11/66] fix: keep the box of the last accumulated frame when a
 later frame fails

BondHistogramCompute stored the new frame's box before validating and looping
over it. A frame that was then rejected left its box behind, and the results
of the frames accumulated before it were normalized with that box's volume.
---
 freud/locality/BondHistogramCompute.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freud/locality/BondHistogramCompute.h b/freud/locality/BondHistogramCompute.h
index 790f2f1..d5aff37 100644
--- a/freud/locality/BondHistogramCompute.h
+++ b/freud/locality/BondHistogramCompute.h
@@ -117,8 +117,8 @@ public:
                            const vec3<float>* query_points, unsigned int n_query_points,
                            std::shared_ptr<locality::NeighborList> nlist, locality::QueryArgs qargs, Func cf)
     {
-        m_box = neighbor_query->getBox();
         locality::loopOverNeighbors(neighbor_query, query_points, n_query_points, qargs, nlist, cf);
+        m_box = neighbor_query->getBox();
         m_frame_counter++;
         m_n_points = neighbor_query->getNPoints();
         m_n_query_points = n_query_points;
-- 
2.43.0


From 060fd022ab242317a3c4e582bed3e325605e2d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:58 +0000
Subject: [PATCH 12/66] fix: add a frame to the Debye structure factor only
 once it is complete

A frame that failed part way through had already changed the minimum valid k
and the bins some threads had finished, so the frames accumulated before it
were no longer reported correctly.
---
 freud/diffraction/StaticStructureFactorDebye.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/freud/diffraction/StaticStructureFactorDebye.cc b/freud/diffraction/StaticStructureFactorDebye.cc
index 757bbbf..d94e3b0 100644
--- a/freud/diffraction/StaticStructureFactorDebye.cc
+++ b/freud/diffraction/StaticStructureFactorDebye.cc
@@ -70,7 +70,6 @@ void StaticStructureFactorDebye::accumulate(const std::shared_ptr<locality::Neig
     const auto box_L = box.getL();
     const auto min_box_length
         = box.is2D() ? std::min(box_L.x, box_L.y) : std::min(box_L.x, std::min(box_L.y, box_L.z));
-    m_min_valid_k = std::min(m_min_valid_k, 2 * freud::constants::TWO_PI / min_box_length);
 
     const auto* const points = neighbor_query->getPoints();
     const auto n_points = neighbor_query->getNPoints();
@@ -80,8 +79,9 @@ void StaticStructureFactorDebye::accumulate(const std::shared_ptr<locality::Neig
     box.computeAllDistances(points, n_points, query_points, n_query_points, distances.data());
 
     const auto k_bin_centers = m_structure_factor.getBinCenters()[0];
+    std::vector<float> frame_structure_factor(m_structure_factor.getAxisSizes()[0]);
 
-    util::forLoopWrapper(0, m_structure_factor.getAxisSizes()[0], [&](size_t begin, size_t end) {
+    util::forLoopWrapper(0, frame_structure_factor.size(), [&](size_t begin, size_t end) {
         for (size_t k_index = begin; k_index < end; ++k_index)
         {
             const auto k = k_bin_centers[k_index];
@@ -112,9 +112,17 @@ void StaticStructureFactorDebye::accumulate(const std::shared_ptr<locality::Neig
                 }
             }
             S_k /= static_cast<double>(n_total);
-            m_local_structure_factor.increment(k_index, float(S_k));
+            frame_structure_factor[k_index] = float(S_k);
         };
     });
+
+    // Add the frame only once it is complete, so that an exception raised while
+    // computing it leaves the frames accumulated before it untouched.
+    for (size_t k_index = 0; k_index < frame_structure_factor.size(); ++k_index)
+    {
+        m_local_structure_factor.increment(k_index, frame_structure_factor[k_index]);
+    }
+    m_min_valid_k = std::min(m_min_valid_k, 2 * freud::constants::TWO_PI / min_box_length);
     m_frame_counter++;
     m_reduce = true;
 }
-- 
2.43.0


From e22ed4817d3797895047166492f50670f9a48605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:21 +0000
Subject: [PATCH 13/66] fix: a failed frame no longer changes the type of the
 correlation function

CorrelationFunction.compute set is_complex before the frame was accepted, so
the correlation accumulated before a rejected complex frame changed its dtype.
---
 freud/density.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/freud/density.py b/freud/density.py
index c47ad95..645c5b5 100644
--- a/freud/density.py
+++ b/freud/density.py
@@ -106,7 +106,7 @@ class CorrelationFunction(_SpatialHistogram1D):
             self._preprocess_arguments(system, query_points, neighbors)
         )
 
-        self.is_complex = (
+        is_complex = (
             self.is_complex
             or np.any(np.iscomplex(values))
             or np.any(np.iscomplex(query_values))
@@ -133,6 +133,8 @@ class CorrelationFunction(_SpatialHistogram1D):
             nlist._cpp_obj,
             qargs._cpp_obj,
         )
+        # Set only after accumulating, a frame that fails must not change it.
+        self.is_complex = is_complex
         return self
 
     @_Compute._computed_property
-- 
2.43.0


From 02edf85280edbe129e2f75979a642b53d47b09b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:30 +0000
Subject: [PATCH 14/66] fix: a rejected frame no longer fixes PMFTXYZ's number
 of orientations

The number of equivalent orientations was stored before the frame was checked
and accumulated, so after a rejected frame the results of the earlier frames
and the next valid frame used a number that no accumulated frame had.
---
 freud/pmft/PMFTXYZ.cc | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/freud/pmft/PMFTXYZ.cc b/freud/pmft/PMFTXYZ.cc
index 4cd2df2..7c969f4 100644
--- a/freud/pmft/PMFTXYZ.cc
+++ b/freud/pmft/PMFTXYZ.cc
@@ -109,13 +109,9 @@ void PMFTXYZ::accumulate(const std::shared_ptr<locality::NeighborQuery>& neighbo
                          unsigned int num_equiv_orientations, std::shared_ptr<locality::NeighborList> nlist,
                          const freud::locality::QueryArgs& qargs)
 {
-    // Set the number of equivalent orientations the first time we compute
+    // The number of equivalent orientations is set the first time we compute
     // (after a reset), then error on subsequent calls if it changes.
-    if (m_num_equiv_orientations == 0xffffffff)
-    {
-        m_num_equiv_orientations = num_equiv_orientations;
-    }
-    else if (m_num_equiv_orientations != num_equiv_orientations)
+    if (m_num_equiv_orientations != 0xffffffff && m_num_equiv_orientations != num_equiv_orientations)
     {
         throw std::runtime_error(
             "The number of equivalent orientations must be constant while accumulating data into PMFTXYZ.");
@@ -142,6 +138,8 @@ void PMFTXYZ::accumulate(const std::shared_ptr<locality::NeighborQuery>& neighbo
                               m_local_histograms(v.x, v.y, v.z);
                           }
                       });
+    // Set only once the frame was accumulated, a frame that fails must not change it.
+    m_num_equiv_orientations = num_equiv_orientations;
 }
 
 }; }; // end namespace freud::pmft
-- 
2.43.0


From 403b56b5cb6a94113037b051d96457a7ddab79a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:30 +0000
Subject: [PATCH 15/66] fix: a rejected frame no longer changes
 DiffractionPattern.N_points

---
 freud/diffraction.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/freud/diffraction.py b/freud/diffraction.py
index 609818b..56930f8 100644
--- a/freud/diffraction.py
+++ b/freud/diffraction.py
@@ -757,13 +757,13 @@ class DiffractionPattern(_Compute):
 
         # Transform the image (scale, shear, zoom) and normalize S(k) by the
         # number of points
-        self._N_points = len(system.points)
+        N_points = len(system.points)
         diffraction_frame = (
-            self._transform(diffraction_frame, system.box, inv_shear, zoom)
-            / self._N_points
+            self._transform(diffraction_frame, system.box, inv_shear, zoom) / N_points
         )
 
         # Add to the diffraction pattern and increment the frame counter
+        self._N_points = N_points
         self._diffraction += np.asarray(diffraction_frame)
         self._frame_counter += 1
 
-- 
2.43.0


From 6ccbf0c444cd7146a6e9aa58c87f87ce7a0ef245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:30 +0000
Subject: [PATCH 16/66] fix: MSD results are unavailable until a compute has
 succeeded

MSD.compute marked the object as computed before checking its input, so after
a rejected first call reading msd raised ValueError from numpy rather than
AttributeError.
---
 freud/msd.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/freud/msd.py b/freud/msd.py
index 21b4aed..e35cbc1 100644
--- a/freud/msd.py
+++ b/freud/msd.py
@@ -194,8 +194,6 @@ class MSD(_Compute):
         if reset:
             self._particle_msd = []
 
-        self._called_compute = True
-
         positions = freud.util._convert_array(positions, shape=(None, None, 3))
         if images is not None:
             images = freud.util._convert_array(
-- 
2.43.0


From bd8373415bf6e71281063dc8c7b3b6a3d5253abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:17 +0000
Subject: [PATCH 17/66] fix: CorrelationFunction: reset counts and correlations
 together

When allocating the new arrays failed, the bin counts had been reset while the
correlations of the previous frames remained.
---
 freud/density/CorrelationFunction.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/freud/density/CorrelationFunction.cc b/freud/density/CorrelationFunction.cc
index cfab07f..c059ce1 100644
--- a/freud/density/CorrelationFunction.cc
+++ b/freud/density/CorrelationFunction.cc
@@ -5,6 +5,7 @@
 #include <cstddef>
 #include <memory>
 #include <stdexcept>
+#include <utility>
 #ifdef __SSE2__
 #include <emmintrin.h>
 #endif
@@ -61,8 +62,10 @@ void CorrelationFunction::reduce()
 
 void CorrelationFunction::reset()
 {
+    // Allocate first, so that the counts and the correlations are reset together or not at all.
+    auto correlation_function = util::Histogram<std::complex<double>>(m_histogram.getAxes());
     BondHistogramCompute::reset();
-    m_correlation_function = util::Histogram<std::complex<double>>(m_histogram.getAxes());
+    m_correlation_function = std::move(correlation_function);
     m_local_correlation_function.reset();
 }
 
-- 
2.43.0


From e1fee89eeeabf63a5244fdc7d100bd6337087606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:44 +0000
Subject: [PATCH 18/66] fix: neighbors of an empty NeighborList have shape (0,
 2)

---
 freud/locality/NeighborList.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freud/locality/NeighborList.cc b/freud/locality/NeighborList.cc
index 8d4a06c..b0b0da1 100644
--- a/freud/locality/NeighborList.cc
+++ b/freud/locality/NeighborList.cc
@@ -23,7 +23,7 @@ namespace freud { namespace locality {
 
 NeighborList::NeighborList()
     : m_num_query_points(0), m_num_points(0), m_segments_counts_updated(false),
-      m_neighbors(std::make_shared<util::ManagedArray<unsigned int>>()),
+      m_neighbors(std::make_shared<util::ManagedArray<unsigned int>>(std::vector<size_t> {0, 2})),
       m_distances(std::make_shared<util::ManagedArray<float>>()),
       m_weights(std::make_shared<util::ManagedArray<float>>()),
       m_vectors(std::make_shared<util::ManagedArray<vec3<float>>>()),
-- 
2.43.0


From 11889b48bff918bffc32e8a60e1136884bc065c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:44 +0000
Subject: [PATCH 19/66] fix: a failed NeighborList copy leaves the destination
 unchanged

---
 freud/locality/NeighborList.cc | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/freud/locality/NeighborList.cc b/freud/locality/NeighborList.cc
index b0b0da1..f3be06b 100644
--- a/freud/locality/NeighborList.cc
+++ b/freud/locality/NeighborList.cc
@@ -318,15 +318,23 @@ void NeighborList::resize(unsigned int num_bonds)
 
 void NeighborList::copy(const NeighborList& other)
 {
+    // Make all copies first so that a failure leaves this list unchanged.
+    auto neighbors = std::make_shared<util::ManagedArray<unsigned int>>(*other.m_neighbors);
+    auto distances = std::make_shared<util::ManagedArray<float>>(*other.m_distances);
+    auto weights = std::make_shared<util::ManagedArray<float>>(*other.m_weights);
+    auto vectors = std::make_shared<util::ManagedArray<vec3<float>>>(*other.m_vectors);
+    auto segments = std::make_shared<util::ManagedArray<unsigned int>>(*other.m_segments);
+    auto counts = std::make_shared<util::ManagedArray<unsigned int>>(*other.m_counts);
+
     m_num_query_points = other.m_num_query_points;
     m_num_points = other.m_num_points;
     m_segments_counts_updated = other.m_segments_counts_updated;
-    m_neighbors = std::make_shared<util::ManagedArray<unsigned int>>(*other.m_neighbors);
-    m_distances = std::make_shared<util::ManagedArray<float>>(*other.m_distances);
-    m_weights = std::make_shared<util::ManagedArray<float>>(*other.m_weights);
-    m_vectors = std::make_shared<util::ManagedArray<vec3<float>>>(*other.m_vectors);
-    m_segments = std::make_shared<util::ManagedArray<unsigned int>>(*other.m_segments);
-    m_counts = std::make_shared<util::ManagedArray<unsigned int>>(*other.m_counts);
+    m_neighbors = std::move(neighbors);
+    m_distances = std::move(distances);
+    m_weights = std::move(weights);
+    m_vectors = std::move(vectors);
+    m_segments = std::move(segments);
+    m_counts = std::move(counts);
 }
 
 void NeighborList::validate(unsigned int num_query_points, unsigned int num_points) const
-- 
2.43.0


From eee75ef60dcd10e3d41dd245f0e7e628b55bff79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:44 +0000
Subject: [PATCH 20/66] fix: NeighborList.filter rejects a filter of the wrong
 length

---
 freud/locality/export-NeighborList.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/freud/locality/export-NeighborList.cc b/freud/locality/export-NeighborList.cc
index 1f1dced..d0a7f73 100644
--- a/freud/locality/export-NeighborList.cc
+++ b/freud/locality/export-NeighborList.cc
@@ -6,6 +6,7 @@
 #include <nanobind/ndarray.h>
 #include <nanobind/operators.h>
 #include <nanobind/stl/shared_ptr.h> // NOLINT(misc-include-cleaner): used implicitly
+#include <stdexcept>
 
 #include "Box.h"
 #include "NeighborBond.h"
@@ -51,6 +52,10 @@ void ConstructAllPairs(NeighborList* nlist, const nb_array<const float, nb::shap
 unsigned int filter(const std::shared_ptr<NeighborList>& nlist,
                     const nb_array<const bool, nb::ndim<1>>& filter)
 {
+    if (filter.shape(0) != nlist->getNumBonds())
+    {
+        throw std::invalid_argument("NeighborList.filter requires one filter value per bond.");
+    }
     const bool* filter_data = (const bool*) filter.data();
     return nlist->filter(filter_data);
 }
-- 
2.43.0


From 7e307c25703937e197435811a351320c9891081b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:41 +0000
Subject: [PATCH 21/66] fix: BondOrder.bounds raised AttributeError

---
 freud/environment/export-BondOrder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freud/environment/export-BondOrder.cc b/freud/environment/export-BondOrder.cc
index 8a79b10..ec5dd14 100644
--- a/freud/environment/export-BondOrder.cc
+++ b/freud/environment/export-BondOrder.cc
@@ -59,7 +59,7 @@ void export_BondOrder(nb::module_& module)
         .value("oocd", BondOrderMode::oocd)
         .export_values();
 
-    nb::class_<BondOrder>(module, "BondOrder")
+    nb::class_<BondOrder, locality::BondHistogramCompute>(module, "BondOrder")
         .def(nb::init<unsigned int, unsigned int, BondOrderMode>())
         .def("getBondOrder", &BondOrder::getBondOrder)
         .def("getBinCounts", &BondOrder::getBinCounts)
-- 
2.43.0


From 62fabe1ade4c6acd326e73037e9fce13613e528f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 22/66] fix: CorrelationFunction.bins and bounds raised
 AttributeError

---
 freud/density.py                            | 2 +-
 freud/density/export-CorrelationFunction.cc | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/freud/density.py b/freud/density.py
index 645c5b5..7b29aeb 100644
--- a/freud/density.py
+++ b/freud/density.py
@@ -147,7 +147,7 @@ class CorrelationFunction(_SpatialHistogram1D):
     @property
     def bins(self):
         """int: Number of bins used in the calculation."""
-        return self._cpp_obj.getNBins()
+        return self.nbins
 
     def __repr__(self):
         return (
diff --git a/freud/density/export-CorrelationFunction.cc b/freud/density/export-CorrelationFunction.cc
index a868bd3..caf2389 100644
--- a/freud/density/export-CorrelationFunction.cc
+++ b/freud/density/export-CorrelationFunction.cc
@@ -8,6 +8,7 @@
 #include <nanobind/stl/shared_ptr.h> // NOLINT(misc-include-cleaner): used implicitly
 #include <nanobind/stl/vector.h>     // NOLINT(misc-include-cleaner): used implicitly
 
+#include "BondHistogramCompute.h"
 #include "CorrelationFunction.h"
 #include "NeighborList.h"
 #include "NeighborQuery.h"
@@ -44,7 +45,7 @@ namespace detail {
 
 void export_CorrelationFunction(nanobind::module_& m)
 {
-    nanobind::class_<CorrelationFunction>(m, "CorrelationFunction")
+    nanobind::class_<CorrelationFunction, locality::BondHistogramCompute>(m, "CorrelationFunction")
         .def(nanobind::init<unsigned int, float>(), nanobind::arg("bins"), nanobind::arg("r_max"))
         .def("reset", &CorrelationFunction::reset)
         .def("accumulate", &wrap::accumulateCF, nanobind::arg("neighbor_query"), nanobind::arg("values"),
-- 
2.43.0


From 96d3322c210c6139a59997ee6e0b5955cad9219c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:04 +0000
Subject: [PATCH 23/66] fix: MSD rejects trajectories of another length than
 those accumulated

---
 freud/msd.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/freud/msd.py b/freud/msd.py
index e35cbc1..263bd53 100644
--- a/freud/msd.py
+++ b/freud/msd.py
@@ -199,6 +199,13 @@ class MSD(_Compute):
             images = freud.util._convert_array(
                 images, shape=positions.shape, dtype=np.int32
             )
+        if self._particle_msd and len(self._particle_msd[0]) != len(positions):
+            msg = (
+                "Trajectories that are accumulated must all have the same number "
+                f"of frames; expected {len(self._particle_msd[0])}, got "
+                f"{len(positions)}."
+            )
+            raise ValueError(msg)
 
         # Make sure we aren't modifying the provided array
         if self._box is not None and images is not None:
-- 
2.43.0


From af2b6acc75906bfa97890248c1919b411e468d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:53 +0000
Subject: [PATCH 24/66] fix: a refused number of threads is no longer reported
 by get_num_threads

---
 freud/parallel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/freud/parallel.py b/freud/parallel.py
index da7e6b3..345b155 100644
--- a/freud/parallel.py
+++ b/freud/parallel.py
@@ -33,10 +33,11 @@ def set_num_threads(nthreads=None):
     if nthreads is None or nthreads < 0:
         nthreads = 0
 
-    _num_threads = nthreads
-
+    # Set first, a number that is refused must not be reported.
     freud._parallel.setNumThreads(nthreads)
 
+    _num_threads = nthreads
+
 
 class NumThreads:
     r"""Context manager for managing the number of threads to use.
-- 
2.43.0


From 198c1c8286cf26798ce8076849ca8526025ca1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:53 +0000
Subject: [PATCH 25/66] fix: NumThreads restores the number of threads in use
 when it was entered

---
 freud/parallel.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/freud/parallel.py b/freud/parallel.py
index 345b155..dd145c0 100644
--- a/freud/parallel.py
+++ b/freud/parallel.py
@@ -49,12 +49,14 @@ class NumThreads:
     """
 
     def __init__(self, N=None):
-        self.restore_N = _num_threads
+        self.restore_N = []
         self.N = N
 
     def __enter__(self):
+        restore_N = _num_threads
         set_num_threads(self.N)
+        self.restore_N.append(restore_N)
         return self
 
     def __exit__(self, *args):
-        set_num_threads(self.restore_N)
+        set_num_threads(self.restore_N.pop())
-- 
2.43.0


From f66b2d8a84e3cffb8404e23db66f6053c7ad4be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:14 +0000
Subject: [PATCH 26/66] fix: nearest neighbors are found once for a first guess
 beyond half the box

---
 freud/locality/AABBQuery.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/freud/locality/AABBQuery.cc b/freud/locality/AABBQuery.cc
index 50d65ee..5e6392c 100644
--- a/freud/locality/AABBQuery.cc
+++ b/freud/locality/AABBQuery.cc
@@ -166,6 +166,9 @@ NeighborBond AABBQueryIterator::next()
     // search for new neighbors the first time next is called.
     if (m_current_neighbors.empty())
     {
+        // A first guess beyond the cutoff radius needs the same care.
+        m_search_extended = m_r_cur > min_plane_distance / 2;
+
         // Continually perform ball queries until the termination conditions are met.
         while (true)
         {
-- 
2.43.0


From 8ac944fd862c9cffdbcc41b57e78930bede35439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:08 +0000
Subject: [PATCH 27/66] fix: UnitCell keeps its own copy of the basis positions

---
 freud/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freud/data.py b/freud/data.py
index 998a000..6115038 100644
--- a/freud/data.py
+++ b/freud/data.py
@@ -39,7 +39,7 @@ class UnitCell:
         if basis_positions is None:
             basis_positions = [[0, 0, 0]]
         self._box = freud.box.Box.from_box(box)
-        self._basis_positions = basis_positions
+        self._basis_positions = np.array(basis_positions)
 
     def generate_system(
         self,
-- 
2.43.0


From ddd81b13bec85d5f03654d5826bd620a9c39d925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:08 +0000
Subject: [PATCH 28/66] fix: DiffractionPattern keeps its own copy of the view
 orientation

k_vectors is computed from it when it is first read.
---
 freud/diffraction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freud/diffraction.py b/freud/diffraction.py
index 56930f8..65518a7 100644
--- a/freud/diffraction.py
+++ b/freud/diffraction.py
@@ -781,7 +781,7 @@ class DiffractionPattern(_Compute):
         # Cache the view orientation and box matrix scale factor for
         # lazy evaluation of k-values and k-vectors
         self._box_matrix_scale_factor = np.max(system.box.to_matrix())
-        self._view_orientation = view_orientation
+        self._view_orientation = np.array(view_orientation)
         self._k_scale_factor = (
             2 * np.pi * self.output_size / (self._box_matrix_scale_factor * zoom)
         )
-- 
2.43.0


From 2950e2178ea73ee211539fd700c3029ae235fb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:08 +0000
Subject: [PATCH 29/66] fix: MSD keeps its own copy of the box

---
 freud/msd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freud/msd.py b/freud/msd.py
index 263bd53..0bc987e 100644
--- a/freud/msd.py
+++ b/freud/msd.py
@@ -150,7 +150,7 @@ class MSD(_Compute):
 
     def __init__(self, box=None, mode="window"):
         if box is not None:
-            self._box = freud.util._convert_box(box)
+            self._box = freud.box.BoxFromCPP(freud.util._convert_box(box)._cpp_obj)
         else:
             self._box = None
 
-- 
2.43.0


From 1d514aeb912f90ba220d0cc5fecf7464e7623101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:08 +0000
Subject: [PATCH 30/66] fix: changing the dimensions of a box keeps its lengths
 and bounds consistent

Setting dimensions to 3 lost Lz of a 3D box, and setting them to 2 kept
the bounds in z, which displaced absolute coordinates in a tilted box.
---
 freud/box/Box.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/freud/box/Box.h b/freud/box/Box.h
index 0bf4594..ce76451 100644
--- a/freud/box/Box.h
+++ b/freud/box/Box.h
@@ -118,8 +118,7 @@ public:
     void set2D(bool _2d)
     {
         m_2d = _2d;
-        m_L.z = 0;
-        m_Linv.z = 0;
+        setL(m_L.x, m_L.y, m_L.z);
     }
 
     //! Returns whether box is two dimensional
-- 
2.43.0


From 8963ac3c729870ffcc6513d7af51cc326dcda74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:08 +0000
Subject: [PATCH 31/66] fix: the tilt factors xz and yz do not narrow a 2D box

---
 freud/box/Box.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/freud/box/Box.h b/freud/box/Box.h
index ce76451..a52ac39 100644
--- a/freud/box/Box.h
+++ b/freud/box/Box.h
@@ -487,9 +487,13 @@ public:
      */
     vec3<float> getNearestPlaneDistance() const
     {
+        // xz and yz tilt the third lattice vector, which a 2D box does not have
+        float const xz = m_2d ? 0 : m_xz;
+        float const yz = m_2d ? 0 : m_yz;
+
         vec3<float> dist;
-        dist.x = m_L.x / std::sqrt(float(1.0) + m_xy * m_xy + (m_xy * m_yz - m_xz) * (m_xy * m_yz - m_xz));
-        dist.y = m_L.y / std::sqrt(float(1.0) + m_yz * m_yz);
+        dist.x = m_L.x / std::sqrt(float(1.0) + m_xy * m_xy + (m_xy * yz - xz) * (m_xy * yz - xz));
+        dist.y = m_L.y / std::sqrt(float(1.0) + yz * yz);
         dist.z = m_L.z;
 
         return dist;
-- 
2.43.0


From fc5ad4e341d635bf8c9f25d3527d111172ffacc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:08 +0000
Subject: [PATCH 32/66] fix: CellQuery rejects non-periodic boxes, as the other
 neighbor queries do

---
 freud/locality/CellQuery.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/freud/locality/CellQuery.cc b/freud/locality/CellQuery.cc
index b273fdd..f28efe6 100644
--- a/freud/locality/CellQuery.cc
+++ b/freud/locality/CellQuery.cc
@@ -17,6 +17,13 @@ namespace freud::locality {
 std::shared_ptr<NeighborQueryIterator>
 CellQuery::query(const vec3<float>* query_points, unsigned int n_query_points, QueryArgs query_args) const
 {
+    // pair calculations using non-periodic boxes should fail
+    vec3<bool> const periodic = m_box.getPeriodic();
+    if (!(periodic.x && periodic.y && periodic.z))
+    {
+        throw std::domain_error("Pair queries in a non-periodic box are not implemented.");
+    }
+
     this->validateQueryArgs(query_args);
     // SAFETY: This lazy initialization can cause UB if `CellQuery.query` is
     // called in a parallel loop. This  never occurs as of writing this method,
-- 
2.43.0


From 30b41a3ea2fa9287bf628ab587343068545f4cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:58 +0000
Subject: [PATCH 33/66] fix: raw points in a non-periodic box are rejected, as
 the other neighbor queries are

---
 freud/locality/RawPoints.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/freud/locality/RawPoints.h b/freud/locality/RawPoints.h
index f08af91..4bffa8f 100644
--- a/freud/locality/RawPoints.h
+++ b/freud/locality/RawPoints.h
@@ -55,8 +55,7 @@ public:
             aq = std::make_unique<AABBQuery>(m_box, m_points, m_n_points);
         }
 
-        this->validateQueryArgs(query_args);
-        return std::make_shared<NeighborQueryIterator>(this, query_points, n_query_points, query_args);
+        return NeighborQuery::query(query_points, n_query_points, query_args);
     }
 
     // dummy implementation for pure virtual function in the parent class
-- 
2.43.0


From 76470a61b45737b0975cd22eb787bd86710830b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:50 +0000
Subject: [PATCH 34/66] fix: a failed reset no longer changes the type of the
 correlation function

---
 freud/density.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freud/density.py b/freud/density.py
index 7b29aeb..bad5255 100644
--- a/freud/density.py
+++ b/freud/density.py
@@ -99,8 +99,8 @@ class CorrelationFunction(_SpatialHistogram1D):
                 value: True).
         """  # noqa E501
         if reset:
-            self.is_complex = False
             self._reset()
+            self.is_complex = False
 
         nq, nlist, qargs, l_query_points, _num_query_points = (
             self._preprocess_arguments(system, query_points, neighbors)
-- 
2.43.0


From 64b18eab35f274de5afe7253b68354ef65e219b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:18 +0000
Subject: [PATCH 35/66] fix: AngularSeparationNeighbor reads query_orientations
 at query points and orientations at points

---
 freud/environment.py                   | 7 +++----
 freud/environment/AngularSeparation.cc | 8 ++++----
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/freud/environment.py b/freud/environment.py
index edb2681..6f2e8c7 100644
--- a/freud/environment.py
+++ b/freud/environment.py
@@ -102,10 +102,9 @@ class AngularSeparationNeighbor(_PairCompute):
         )
         if query_orientations is None:
             query_orientations = orientations
-        else:
-            query_orientations = freud.util._convert_array(
-                query_orientations, shape=(query_points.shape[0], 4)
-            )
+        query_orientations = freud.util._convert_array(
+            query_orientations, shape=(query_points.shape[0], 4)
+        )
 
         equiv_orientations = freud.util._convert_array(
             equiv_orientations, shape=(None, 4)
diff --git a/freud/environment/AngularSeparation.cc b/freud/environment/AngularSeparation.cc
index dbe4fb1..85d431d 100644
--- a/freud/environment/AngularSeparation.cc
+++ b/freud/environment/AngularSeparation.cc
@@ -73,19 +73,19 @@ void AngularSeparationNeighbor::compute(const std::shared_ptr<locality::Neighbor
     const size_t tot_num_neigh = m_nlist->getNumBonds();
     m_angles = std::make_shared<util::ManagedArray<float>>(std::vector<size_t> {tot_num_neigh});
 
-    util::forLoopWrapper(0, nq->getNPoints(), [&](size_t begin, size_t end) {
+    util::forLoopWrapper(0, n_query_points, [&](size_t begin, size_t end) {
         size_t bond(m_nlist->find_first_index(begin));
         for (size_t i = begin; i < end; ++i)
         {
-            const quat<float> q = orientations[i];
+            const quat<float> query_q = query_orientations[i];
 
             for (; bond < tot_num_neigh && (*m_nlist->getNeighbors())(bond, 0) == i; ++bond)
             {
                 const size_t j((*m_nlist->getNeighbors())(bond, 1));
-                const quat<float> query_q = query_orientations[j];
+                const quat<float> q = orientations[j];
 
                 const float theta
-                    = computeMinSeparationAngle(q, query_q, equiv_orientations, n_equiv_orientations);
+                    = computeMinSeparationAngle(query_q, q, equiv_orientations, n_equiv_orientations);
                 (*m_angles)[bond] = theta;
             }
         }
-- 
2.43.0


From c789177ced95a601b8ee573275f05f9da550e068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:18 +0000
Subject: [PATCH 36/66] fix: LocalDescriptors computes every query point, with
 one orientation for each

---
 freud/environment.py                  | 9 +++++----
 freud/environment/LocalDescriptors.cc | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/freud/environment.py b/freud/environment.py
index 6f2e8c7..bcfc0eb 100644
--- a/freud/environment.py
+++ b/freud/environment.py
@@ -451,9 +451,10 @@ class LocalDescriptors(_PairCompute):
                 Query points used to calculate the correlation function.  Uses
                 the system's points if :code:`None` (Default
                 value = :code:`None`).
-            orientations ((:math:`N_{points}`, 4) :class:`numpy.ndarray`):
-                Orientations associated with system points that are used to
-                calculate bonds.
+            orientations ((:math:`N_{query\_points}`, 4) :class:`numpy.ndarray`):
+                Orientations associated with the query points (the system's
+                points if there are none), used in mode
+                :code:`'particle_local'`.
             neighbors (:class:`freud.locality.NeighborList` or dict, optional):
                 Either a :class:`NeighborList <freud.locality.NeighborList>` of
                 neighbor pairs to use in the calculation, or a dictionary of
@@ -479,7 +480,7 @@ class LocalDescriptors(_PairCompute):
                 raise RuntimeError(msg)
 
             orientations = freud.util._convert_array(
-                orientations, shape=(nq.points.shape[0], 4)
+                orientations, shape=(num_query_points, 4)
             )
 
         self._cpp_obj.compute(
diff --git a/freud/environment/LocalDescriptors.cc b/freud/environment/LocalDescriptors.cc
index f37048d..b19e919 100644
--- a/freud/environment/LocalDescriptors.cc
+++ b/freud/environment/LocalDescriptors.cc
@@ -48,7 +48,7 @@ void LocalDescriptors::compute(const std::shared_ptr<locality::NeighborQuery>& n
     m_sphArray = std::make_shared<util::ManagedArray<std::complex<float>>>(
         std::vector<size_t> {m_nlist->getNumBonds(), getSphWidth()});
 
-    util::forLoopWrapper(0, nq->getNPoints(), [&](size_t begin, size_t end) {
+    util::forLoopWrapper(0, m_nlist->getNumQueryPoints(), [&](size_t begin, size_t end) {
         fsph::PointSPHEvaluator<float> sph_eval(m_l_max);
 
         for (size_t i = begin; i < end; ++i)
-- 
2.43.0


From e32b8190e1013a4fb29b24438999df2f82a11c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:18 +0000
Subject: [PATCH 37/66] fix: StaticStructureFactorDirect no longer loses k
 points in triclinic boxes

---
 .../StaticStructureFactorDirect.cc            | 28 +++++++++++--------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/freud/diffraction/StaticStructureFactorDirect.cc b/freud/diffraction/StaticStructureFactorDirect.cc
index 4f21037..558d510 100644
--- a/freud/diffraction/StaticStructureFactorDirect.cc
+++ b/freud/diffraction/StaticStructureFactorDirect.cc
@@ -244,10 +244,14 @@ std::pair<unsigned int, unsigned int>
 evaluate_quadratic_equation(float coef_a, float coef_b, float coef_c_min, float coef_c_max, unsigned int N_kz)
 {
     const auto b_over_2a = coef_b / (2 * coef_a);
-    const auto kz_min = static_cast<unsigned int>(
-        std::floor(-b_over_2a + std::sqrt(b_over_2a * b_over_2a - coef_c_min / coef_a)));
-    const auto kz_max = static_cast<unsigned int>(
-        std::ceil(-b_over_2a + std::sqrt(b_over_2a * b_over_2a - coef_c_max / coef_a)));
+    // The lower bound is the positive root, which exists if kz = 0 is closer than k_min.
+    const auto kz_min = coef_c_min < 0
+        ? static_cast<unsigned int>(
+              std::floor(-b_over_2a + std::sqrt((b_over_2a * b_over_2a) - (coef_c_min / coef_a))))
+        : 0U;
+    // There is nothing within k_max if there is no positive root.
+    const auto root_max = -b_over_2a + std::sqrt((b_over_2a * b_over_2a) - (coef_c_max / coef_a));
+    const auto kz_max = root_max > 0 ? static_cast<unsigned int>(std::ceil(root_max)) : 0U;
     return {kz_min, std::min(kz_max, N_kz)};
 }
 
@@ -317,9 +321,9 @@ std::vector<vec3<float>> StaticStructureFactorDirect::reciprocal_isotropic(const
                 const auto k_vec_x = static_cast<float>(kx) * bx;
 
                 // Solve the quadratic equation for kz to limit which kz values we must sample:
-                // k_min^2 <= |k_vec_x|^2 + ky^2 |by|^2 - 2 ky (k_vec_x \cdot by) <= k_max^2
-                // 0 <= ky^2 (|by|^2) + ky (-2 (k_vec_x \cdot by)) + (|k_vec_x|^2 - k_min^2)
-                // 0 >= ky^2 (|by|^2) + ky (-2 (k_vec_x \cdot by)) + (|k_vec_x|^2 - k_max^2)
+                // k_min^2 <= |k_vec_x|^2 + ky^2 |by|^2 + 2 ky (k_vec_x \cdot by) <= k_max^2
+                // 0 <= ky^2 (|by|^2) + ky (2 (k_vec_x \cdot by)) + (|k_vec_x|^2 - k_min^2)
+                // 0 >= ky^2 (|by|^2) + ky (2 (k_vec_x \cdot by)) + (|k_vec_x|^2 - k_max^2)
                 // This step improves performance significantly when k_min > 0
                 // by eliminating a large portion of the search space. Likewise,
                 // it eliminates the portion of search space outside a sphere
@@ -327,7 +331,7 @@ std::vector<vec3<float>> StaticStructureFactorDirect::reciprocal_isotropic(const
                 // ensure that we don't accidentally throw out valid k points in
                 // the range (k_min, k_max) due to rounding error.
                 const auto coef_a = dot(by, by);
-                const auto coef_b = -2 * dot(k_vec_x, by);
+                const auto coef_b = 2 * dot(k_vec_x, by);
                 const auto coef_c_min = dot(k_vec_x, k_vec_x) - k_min * k_min;
                 const auto coef_c_max = dot(k_vec_x, k_vec_x) - k_max * k_max;
                 auto [ky_min, ky_max]
@@ -386,9 +390,9 @@ std::vector<vec3<float>> StaticStructureFactorDirect::reciprocal_isotropic(const
                 {
                     const auto k_vec_xy = k_vec_x + static_cast<float>(ky) * by;
                     // Solve the quadratic equation for kz to limit which kz values we must sample:
-                    // k_min^2 <= |k_vec_xy|^2 + kz^2 |bz|^2 - 2 kz (k_vec_xy \cdot bz) <= k_max^2
-                    // 0 <= kz^2 (|bz|^2) + kz (-2 (k_vec_xy \cdot bz)) + (|k_vec_xy|^2 - k_min^2)
-                    // 0 >= kz^2 (|bz|^2) + kz (-2 (k_vec_xy \cdot bz)) + (|k_vec_xy|^2 - k_max^2)
+                    // k_min^2 <= |k_vec_xy|^2 + kz^2 |bz|^2 + 2 kz (k_vec_xy \cdot bz) <= k_max^2
+                    // 0 <= kz^2 (|bz|^2) + kz (2 (k_vec_xy \cdot bz)) + (|k_vec_xy|^2 - k_min^2)
+                    // 0 >= kz^2 (|bz|^2) + kz (2 (k_vec_xy \cdot bz)) + (|k_vec_xy|^2 - k_max^2)
                     // This step improves performance significantly when k_min > 0
                     // by eliminating a large portion of the search space. Likewise,
                     // it eliminates the portion of search space outside a sphere
@@ -396,7 +400,7 @@ std::vector<vec3<float>> StaticStructureFactorDirect::reciprocal_isotropic(const
                     // ensure that we don't accidentally throw out valid k points in
                     // the range (k_min, k_max) due to rounding error.
                     const auto coef_a = dot(bz, bz);
-                    const auto coef_b = -2 * dot(k_vec_xy, bz);
+                    const auto coef_b = 2 * dot(k_vec_xy, bz);
                     const auto coef_c_min = dot(k_vec_xy, k_vec_xy) - k_min * k_min;
                     const auto coef_c_max = dot(k_vec_xy, k_vec_xy) - k_max * k_max;
                     auto [kz_min, kz_max]
-- 
2.43.0


From c849b7c6332eeb984e460ed045759727e97e4e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:19 +0000
Subject: [PATCH 38/66] fix: a failed frame no longer replaces the k points of
 StaticStructureFactorDirect

---
 .../StaticStructureFactorDirect.cc            | 26 ++++++++++++-------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/freud/diffraction/StaticStructureFactorDirect.cc b/freud/diffraction/StaticStructureFactorDirect.cc
index 558d510..a9bf18f 100644
--- a/freud/diffraction/StaticStructureFactorDirect.cc
+++ b/freud/diffraction/StaticStructureFactorDirect.cc
@@ -64,30 +64,31 @@ void StaticStructureFactorDirect::accumulate(const std::shared_ptr<locality::Nei
     const auto k_bin_edges = m_structure_factor.getBinEdges()[0];
     const auto k_min = k_bin_edges.front();
     const auto k_max = k_bin_edges.back();
-    if ((!box_assigned) || (box != previous_box))
+    // What describes the last frame is replaced at the end, when nothing can fail any more.
+    const bool new_box = (!box_assigned) || (box != previous_box);
+    std::vector<vec3<float>> new_k_points;
+    if (new_box)
     {
-        previous_box = box;
-        m_k_points
+        new_k_points
             = StaticStructureFactorDirect::reciprocal_isotropic(box, k_max, k_min, m_num_sampled_k_points);
-        box_assigned = true;
     }
+    const auto& k_points = new_box ? new_k_points : m_k_points;
 
     // The minimum valid k value is 2 * pi / L, where L is the smallest side length.
     const auto box_L = box.getL();
     const auto min_box_length
         = box.is2D() ? std::min(box_L.x, box_L.y) : std::min(box_L.x, std::min(box_L.y, box_L.z));
-    m_min_valid_k = std::min(m_min_valid_k, freud::constants::TWO_PI / min_box_length);
 
     // Compute F_k for the points.
     const auto F_k_points = StaticStructureFactorDirect::compute_F_k(
-        neighbor_query->getPoints(), neighbor_query->getNPoints(), n_total, m_k_points);
+        neighbor_query->getPoints(), neighbor_query->getNPoints(), n_total, k_points);
 
     // Compute F_k for the query points (if necessary) and compute the product S_k.
     std::vector<float> S_k_all_points;
     if (query_points != nullptr)
     {
         const auto F_k_query_points
-            = StaticStructureFactorDirect::compute_F_k(query_points, n_query_points, n_total, m_k_points);
+            = StaticStructureFactorDirect::compute_F_k(query_points, n_query_points, n_total, k_points);
         S_k_all_points = StaticStructureFactorDirect::compute_S_k(F_k_points, F_k_query_points);
     }
     else
@@ -96,16 +97,23 @@ void StaticStructureFactorDirect::accumulate(const std::shared_ptr<locality::Nei
     }
 
     // Bin the S_k values and track the number of k values in each bin.
-    util::forLoopWrapper(0, m_k_points.size(), [&](size_t begin, size_t end) {
+    util::forLoopWrapper(0, k_points.size(), [&](size_t begin, size_t end) {
         for (size_t k_index = begin; k_index < end; ++k_index)
         {
-            const auto& k_vec = m_k_points[k_index];
+            const auto& k_vec = k_points[k_index];
             const auto k_magnitude = std::sqrt(dot(k_vec, k_vec));
             const auto k_bin = m_structure_factor.bin({k_magnitude});
             m_local_structure_factor.increment(k_bin, S_k_all_points[k_index]);
             m_local_k_histograms.increment(k_bin);
         };
     });
+    if (new_box)
+    {
+        m_k_points = std::move(new_k_points);
+        previous_box = box;
+        box_assigned = true;
+    }
+    m_min_valid_k = std::min(m_min_valid_k, freud::constants::TWO_PI / min_box_length);
     m_reduce = true;
 }
 
-- 
2.43.0


From 38162860df55d2a68bf37c6cc37c71752b1419d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:19 +0000
Subject: [PATCH 39/66] fix: environment matching forgets the environments of
 earlier computations

---
 freud/environment/MatchEnv.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/freud/environment/MatchEnv.cc b/freud/environment/MatchEnv.cc
index 153a9cd..4d6f57b 100644
--- a/freud/environment/MatchEnv.cc
+++ b/freud/environment/MatchEnv.cc
@@ -533,6 +533,7 @@ void EnvironmentCluster::compute(const std::shared_ptr<freud::locality::Neighbor
         = locality::makeDefaultNlist(nq, env_nlist_arg, nq->getPoints(), nq->getNPoints(), env_qargs);
 
     const unsigned int Np = nq->getNPoints();
+    m_point_environments.clear();
     m_env_index = std::make_shared<util::ManagedArray<unsigned int>>(std::vector<size_t> {Np});
     // m_env_index.prepare(Np);
 
@@ -657,6 +658,7 @@ void EnvironmentMotifMatch::compute(const std::shared_ptr<freud::locality::Neigh
         = locality::makeDefaultNlist(nq, nlist_arg, nq->getPoints(), nq->getNPoints(), qargs);
 
     const unsigned int Np = nq->getNPoints();
+    m_point_environments.clear();
     const float m_threshold_sq = threshold * threshold;
 
     nlist->validate(Np, Np);
@@ -735,6 +737,7 @@ void EnvironmentRMSDMinimizer::compute(const std::shared_ptr<freud::locality::Ne
         = locality::makeDefaultNlist(nq, nlist_arg, nq->getPoints(), nq->getNPoints(), qargs);
 
     const unsigned int Np = nq->getNPoints();
+    m_point_environments.clear();
 
     // create a disjoint set where all particles belong in their own cluster.
     // this has to have ONE MORE environment than there are actual particles,
-- 
2.43.0


From f1b4a35c5613cc20106562a3f869c0e7e57903d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:19 +0000
Subject: [PATCH 40/66] fix: registering environments without neighbors no
 longer crashes

---
 freud/environment/MatchEnv.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/freud/environment/MatchEnv.cc b/freud/environment/MatchEnv.cc
index 4d6f57b..c630bd4 100644
--- a/freud/environment/MatchEnv.cc
+++ b/freud/environment/MatchEnv.cc
@@ -286,7 +286,8 @@ std::pair<rotmat3<float>, BiMap<unsigned int, unsigned int>> isSimilar(Environme
 
     // If the vector sets do not have equal numbers of vectors, just return
     // an empty map since the 1-1 bimapping will be too weird in this case.
-    if (e1.vecs.size() != e2.vecs.size())
+    // Sets without vectors have nothing to map (or to register) either.
+    if (e1.vecs.size() != e2.vecs.size() || e1.vecs.empty())
     {
         return std::pair<rotmat3<float>, BiMap<unsigned int, unsigned int>>(rotation, vec_map);
     }
@@ -441,8 +442,9 @@ std::pair<rotmat3<float>, BiMap<unsigned int, unsigned int>> minimizeRMSD(Enviro
     // call RegisterBruteForce::Fit and update min_rmsd accordingly
     RegisterBruteForce r = RegisterBruteForce(v1);
     // If we have to register, first find the rotated set of v2 that best
-    // maps to v1. The Fit operation CHANGES v2.
-    if (registration)
+    // maps to v1. The Fit operation CHANGES v2. There is nothing to rotate in
+    // an empty set.
+    if (registration && !v1.empty())
     {
         r.Fit(v2);
         // get the optimal rotation to take v2 to v1
-- 
2.43.0


From defa0968120190b57d61c1c88621b0abefa9d4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:19 +0000
Subject: [PATCH 41/66] fix: bind the point environments of
 EnvironmentRMSDMinimizer

---
 freud/environment/export-MatchEnv.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/freud/environment/export-MatchEnv.cc b/freud/environment/export-MatchEnv.cc
index cdc6dd5..3c2c5fb 100644
--- a/freud/environment/export-MatchEnv.cc
+++ b/freud/environment/export-MatchEnv.cc
@@ -106,6 +106,11 @@ nb::object getPointEnvmm(const std::shared_ptr<EnvironmentMotifMatch>& env_cls)
     return convertVectorsToLists(env_cls->getPointEnvironments());
 }
 
+nb::object getPointEnvrmsd(const std::shared_ptr<EnvironmentRMSDMinimizer>& env_cls)
+{
+    return convertVectorsToLists(env_cls->getPointEnvironments());
+}
+
 }; // namespace wrap
 
 namespace detail {
@@ -142,6 +147,7 @@ void export_MatchEnv(nb::module_& module)
         .def(nb::init<>())
         .def("compute", &wrap::compute_env_rmsd_min, nb::arg("nq"), nb::arg("nlist").none(), nb::arg("qargs"),
              nb::arg("motif"), nb::arg("motif_size"), nb::arg("registration"))
+        .def("getPointEnvironments", &wrap::getPointEnvrmsd)
         .def("getRMSDs", &EnvironmentRMSDMinimizer::getRMSDs);
 }
 
-- 
2.43.0


From 5fb473098ebb05b5afd08f45a60035f1a07634c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:56 +0000
Subject: [PATCH 42/66] fix: a query without query points has no neighbors

---
 freud/locality/NeighborQuery.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/freud/locality/NeighborQuery.h b/freud/locality/NeighborQuery.h
index ae53e54..10054e2 100644
--- a/freud/locality/NeighborQuery.h
+++ b/freud/locality/NeighborQuery.h
@@ -370,7 +370,12 @@ public:
         : m_neighbor_query(neighbor_query), m_query_points(query_points),
           m_num_query_points(num_query_points), m_qargs(qargs)
     {
-        m_iter = this->query(m_cur_p);
+        // There is no point to begin with if there are none.
+        m_finished = m_num_query_points == 0;
+        if (!m_finished)
+        {
+            m_iter = this->query(m_cur_p);
+        }
     }
 
     //! Constructor for iterators that share ownership of the NeighborQuery
-- 
2.43.0


From bbd2887da6cc1838b4ef9f48b6d9de38c68e4ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:15 +0000
Subject: [PATCH 43/66] fix: keep the results of MSD when a later computation
 fails

---
 freud/msd.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/freud/msd.py b/freud/msd.py
index 0bc987e..90c0f8d 100644
--- a/freud/msd.py
+++ b/freud/msd.py
@@ -191,18 +191,18 @@ class MSD(_Compute):
                 the new computation; if False, will accumulate data (Default
                 value: True).
         """  # noqa: E501
-        if reset:
-            self._particle_msd = []
+        # What was computed before is kept until this computation is done.
+        earlier = [] if reset else self._particle_msd
 
         positions = freud.util._convert_array(positions, shape=(None, None, 3))
         if images is not None:
             images = freud.util._convert_array(
                 images, shape=positions.shape, dtype=np.int32
             )
-        if self._particle_msd and len(self._particle_msd[0]) != len(positions):
+        if earlier and len(earlier[0]) != len(positions):
             msg = (
                 "Trajectories that are accumulated must all have the same number "
-                f"of frames; expected {len(self._particle_msd[0])}, got "
+                f"of frames; expected {len(earlier[0])}, got "
                 f"{len(positions)}."
             )
             raise ValueError(msg)
@@ -233,13 +233,13 @@ class MSD(_Compute):
                 corrs.append(_autocorrelation(positions[:, :, i]))
             S2 = np.sum(corrs, axis=0)
 
-            self._particle_msd.append(S1 - 2 * S2)
+            particle_msd = S1 - 2 * S2
         elif self.mode == "direct":
             diff = positions - positions[[0], :, :]
-            self._particle_msd.append(
-                np.einsum("ijk, ijk -> ij", diff, diff)  # Dot product along last axis
-            )
+            # Dot product along last axis
+            particle_msd = np.einsum("ijk, ijk -> ij", diff, diff)
 
+        self._particle_msd = [*earlier, particle_msd]
         return self
 
     @property
-- 
2.43.0


From 86bc4f918bbf61fcab407f95ce4c3e2cd740b234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:12 +0000
Subject: [PATCH 44/66] fix: refuse a NeighborList made for other numbers of
 points

---
 freud/locality/NeighborComputeFunctional.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/freud/locality/NeighborComputeFunctional.h b/freud/locality/NeighborComputeFunctional.h
index d43cb37..9759058 100644
--- a/freud/locality/NeighborComputeFunctional.h
+++ b/freud/locality/NeighborComputeFunctional.h
@@ -118,6 +118,7 @@ void loopOverNeighborsIterator(const std::shared_ptr<NeighborQuery>& neighbor_qu
     // check if nlist exists
     if (nlist != nullptr)
     {
+        nlist->validate(n_query_points, neighbor_query->getNPoints());
         util::forLoopWrapper(
             0, n_query_points,
             [&](size_t begin, size_t end) {
@@ -179,6 +180,7 @@ void loopOverNeighbors(const std::shared_ptr<NeighborQuery>& neighbor_query, con
     // check if nlist exists
     if (nlist != nullptr)
     {
+        nlist->validate(n_query_points, neighbor_query->getNPoints());
         util::forLoopWrapper(
             0, nlist->getNumBonds(),
             [&](size_t begin, size_t end) {
-- 
2.43.0


From 9aaecb7925904438da398b27cbff352f8b5e590b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:12 +0000
Subject: [PATCH 45/66] fix: refuse masses that are not one per point

---
 freud/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freud/cluster.py b/freud/cluster.py
index aedb75c..ec9907c 100644
--- a/freud/cluster.py
+++ b/freud/cluster.py
@@ -180,7 +180,7 @@ class ClusterProperties(_Compute):
             cluster_idx, shape=(nq.points.shape[0],), dtype=np.uint32
         )
         if masses is not None:
-            masses = freud.util._convert_array(masses, shape=(len(masses),))
+            masses = freud.util._convert_array(masses, shape=(nq.points.shape[0],))
         self._cpp_obj.compute(nq._cpp_obj, cluster_idx, masses)
         return self
 
-- 
2.43.0


From 67348cbf6d825eae2bf93d29893178ee630f4999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:12 +0000
Subject: [PATCH 46/66] fix: refuse bond projection orientations that are not
 one per point

---
 freud/environment.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/freud/environment.py b/freud/environment.py
index bcfc0eb..c220f51 100644
--- a/freud/environment.py
+++ b/freud/environment.py
@@ -1055,7 +1055,9 @@ class LocalBondProjection(_PairCompute):
             system, query_points, neighbors
         )
 
-        orientations = freud.util._convert_array(orientations, shape=(None, 4))
+        orientations = freud.util._convert_array(
+            orientations, shape=(nq.points.shape[0], 4)
+        )
 
         equiv_orientations = freud.util._convert_array(
             equiv_orientations, shape=(None, 4)
-- 
2.43.0


From 2d3a0db4072292b1c6fb7b92d29fe7d22eb365fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:13 +0000
Subject: [PATCH 47/66] fix: read the box of triclinic MDAnalysis systems

---
 freud/locality.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freud/locality.py b/freud/locality.py
index 20b941c..3c6d0e3 100644
--- a/freud/locality.py
+++ b/freud/locality.py
@@ -321,7 +321,8 @@ class NeighborQuery:
             "MDAnalysis.coordinates.base.Timestep",
             "MDAnalysis.coordinates.timestep.Timestep",
         ):
-            system = (system.triclinic_dimensions, system.positions)
+            # MDAnalysis stores the box vectors as rows, Box.from_matrix takes columns
+            system = (system.triclinic_dimensions.T, system.positions)
 
         # GSD and HOOMD-blue 3 snapshot compatibility
         elif _match_class_path(
-- 
2.43.0


From e8a48356b06ad6592e4745012e120fbb5a7c07c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:13 +0000
Subject: [PATCH 48/66] fix: accept every kind of system in Interface

---
 freud/locality.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/freud/locality.py b/freud/locality.py
index 3c6d0e3..53ec95e 100644
--- a/freud/locality.py
+++ b/freud/locality.py
@@ -799,11 +799,7 @@ def _make_default_nq(neighbor_query):
             :class:`_RawPoints` built from an inferred :code:`box` and
             :code:`points`.
     """
-    if not isinstance(neighbor_query, NeighborQuery):
-        nq = _RawPoints(*neighbor_query)
-    else:
-        nq = neighbor_query
-    return nq
+    return NeighborQuery.from_system(neighbor_query)
 
 
 def _make_default_nlist(system, neighbors, query_points=None):
-- 
2.43.0


From 66c9c16f532959f33d0a0c73e66eea1f687622a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:13 +0000
Subject: [PATCH 49/66] fix: accept quaternions of rotations about -z in the
 PMFTs

---
 freud/pmft.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/freud/pmft.py b/freud/pmft.py
index 420c751..5aa8979 100644
--- a/freud/pmft.py
+++ b/freud/pmft.py
@@ -71,13 +71,15 @@ def _quat_to_z_angle(orientations, num_points):
     ) or (len(orientations.shape) == 2 and orientations.shape[1] == 4)
 
     if is_quat:
-        axes, orientations = rowan.to_axis_angle(orientations)
-        if not (np.allclose(orientations, 0) or np.allclose(axes, [0, 0, 1])):
+        axes, angles = rowan.to_axis_angle(orientations)
+        if not np.allclose(angles[..., np.newaxis] * axes[..., :2], 0):
             msg = (
                 "Orientations provided as quaternions "
                 "must represent rotations about the z-axis."
             )
             raise ValueError(msg)
+        # The axis may point either way along z.
+        orientations = np.copysign(angles, axes[..., 2])
     return orientations
 
 
-- 
2.43.0


From 2eca3206c34f4afdaf64b8c1f3811e04cc3a33cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:08 +0000
Subject: [PATCH 50/66] fix: read no equivalent orientation when none is given

---
 freud/environment/AngularSeparation.cc   | 2 +-
 freud/environment/LocalBondProjection.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/freud/environment/AngularSeparation.cc b/freud/environment/AngularSeparation.cc
index 85d431d..054e940 100644
--- a/freud/environment/AngularSeparation.cc
+++ b/freud/environment/AngularSeparation.cc
@@ -34,7 +34,7 @@ float computeSeparationAngle(const quat<float>& ref_q, const quat<float>& q)
 float computeMinSeparationAngle(const quat<float>& ref_q, const quat<float>& q, const quat<float>* equiv_qs,
                                 unsigned int n_equiv_quats)
 {
-    const quat<float> qconst = equiv_qs[0];
+    const quat<float> qconst = n_equiv_quats > 0 ? equiv_qs[0] : quat<float>();
     // here we undo a rotation represented by one of the equivalent orientations
     const quat<float> qtemp = q * conj(qconst);
 
diff --git a/freud/environment/LocalBondProjection.cc b/freud/environment/LocalBondProjection.cc
index 485c204..8bc2664 100644
--- a/freud/environment/LocalBondProjection.cc
+++ b/freud/environment/LocalBondProjection.cc
@@ -31,7 +31,7 @@ namespace freud { namespace environment {
 float computeMaxProjection(const vec3<float>& proj_vec, const vec3<float>& local_bond,
                            const quat<float>* equiv_qs, unsigned int n_equiv_qs)
 {
-    const quat<float> qconst = equiv_qs[0];
+    const quat<float> qconst = n_equiv_qs > 0 ? equiv_qs[0] : quat<float>();
 
     // start with the reference vector before it has been rotated by equivalent quaternions
     float max_proj = dot(proj_vec, local_bond);
-- 
2.43.0


From 05f8d75503c595454d6aeea939bb71384442c64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:41 +0000
Subject: [PATCH 51/66] fix: find no neighbors in a LinkCell when none are
 asked for

---
 freud/locality/LinkCell.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/freud/locality/LinkCell.cc b/freud/locality/LinkCell.cc
index ec9fa70..f6407c6 100644
--- a/freud/locality/LinkCell.cc
+++ b/freud/locality/LinkCell.cc
@@ -658,8 +658,9 @@ NeighborBond LinkCellQueryIterator::next()
             // closest possible neighbor in the new shell.
             std::sort(m_current_neighbors.begin(), m_current_neighbors.end());
             if ((m_current_neighbors.size() >= m_num_neighbors)
-                && (m_current_neighbors[m_num_neighbors - 1].getDistance()
-                    < static_cast<float>(m_neigh_cell_iter.getRange() - 1) * m_linkcell->getCellWidth()))
+                && (m_num_neighbors == 0
+                    || m_current_neighbors[m_num_neighbors - 1].getDistance()
+                        < static_cast<float>(m_neigh_cell_iter.getRange() - 1) * m_linkcell->getCellWidth()))
             {
                 break;
             }
-- 
2.43.0


From 637f1ba71803dfa46097ee2f520ec6f274a898a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:23 +0000
Subject: [PATCH 52/66] fix: refuse cell grids with too many cells to number

---
 freud/locality/CellQuery.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/freud/locality/CellQuery.cc b/freud/locality/CellQuery.cc
index f28efe6..a82ea3e 100644
--- a/freud/locality/CellQuery.cc
+++ b/freud/locality/CellQuery.cc
@@ -7,6 +7,7 @@
 #include "VectorMath.h"
 #include "utils.h"
 #include <cstddef>
+#include <limits>
 #include <memory>
 #include <stdexcept>
 #include <utility>
@@ -79,6 +80,12 @@ void CellQuery::buildGrid(const float r_cut) const
             "CellQuery::buildGrid produced invalid grid dimensions (zero cells in one or more dimensions).");
     }
 
+    // Cells are numbered with unsigned integers
+    if (static_cast<double>(m_nx) * m_ny * m_nz > std::numeric_limits<unsigned int>::max())
+    {
+        throw std::runtime_error("The CellQuery r_max is too small for this box.");
+    }
+
     const unsigned int n_cells_total = m_nx * m_ny * m_nz;
     // Allocate buffers
     m_counts.assign(n_cells_total, 0);      // Total occupancy of cell
-- 
2.43.0


From 90694ec0d9b37fc1a4491db87cb571b359e75d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:58 +0000
Subject: [PATCH 53/66] fix: give the pairs of a BiMap back when memory runs
 out

---
 freud/environment/MatchEnv.cc |  2 +-
 freud/util/BiMap.h            | 23 +++++++++--------------
 2 files changed, 10 insertions(+), 15 deletions(-)

diff --git a/freud/environment/MatchEnv.cc b/freud/environment/MatchEnv.cc
index c630bd4..0b24d1d 100644
--- a/freud/environment/MatchEnv.cc
+++ b/freud/environment/MatchEnv.cc
@@ -315,7 +315,7 @@ std::pair<rotmat3<float>, BiMap<unsigned int, unsigned int>> isSimilar(Environme
         rotation = rotmat3<float>(rot[0], rot[1], rot[2]);
         BiMap<unsigned int, unsigned int> tmp_vec_map = r.getVecMap();
 
-        for (const auto* registered_pair : tmp_vec_map)
+        for (const auto& registered_pair : tmp_vec_map)
         {
             // RegisterBruteForce has found the vector mapping that results in
             // minimal RMSD, as best as it can figure out.
diff --git a/freud/util/BiMap.h b/freud/util/BiMap.h
index 9f4e745..19945ce 100644
--- a/freud/util/BiMap.h
+++ b/freud/util/BiMap.h
@@ -7,6 +7,7 @@
 #include <algorithm>
 #include <cstddef>
 #include <map>
+#include <memory>
 #include <set>
 #include <stdexcept>
 #include <utility>
@@ -83,7 +84,7 @@ private:
 
 public:
     using Pair = std::pair<T, U>;
-    using Container_t = std::vector<Pair*>;
+    using Container_t = std::vector<std::unique_ptr<Pair>>;
     template<typename I> using Pointer_Set_t = std::set<const I*, Comp<I>>;
     using iterator = typename Container_t::iterator;
     using const_iterator = typename Container_t::const_iterator;
@@ -102,13 +103,7 @@ private:
 
 public:
     BiMap() = default;
-    ~BiMap()
-    {
-        for (size_t i = 0; i < container.size(); ++i)
-        {
-            delete container[i];
-        }
-    }
+    ~BiMap() = default;
 
     BiMap(const BiMap& other)
     {
@@ -148,15 +143,15 @@ public:
 
     template<typename I, typename J> bool emplace(I&& Arg1_in, J&& Arg2_in)
     {
-        auto pair = new Pair(std::forward<I>(Arg1_in), std::forward<J>(Arg2_in));
+        auto pair = std::make_unique<Pair>(std::forward<I>(Arg1_in), std::forward<J>(Arg2_in));
         if (set_A.count(&(pair->first)) != 0 || set_B.count(&(pair->second)) != 0)
         {
-            delete pair;
             return false;
         }
-        set_A.emplace(&(pair->first));
-        set_B.emplace(&(pair->second));
+        // The container owns the pair before the sets refer to it.
         container.emplace_back(std::move(pair));
+        set_A.emplace(&(container.back()->first));
+        set_B.emplace(&(container.back()->second));
         return true;
     }
 
@@ -231,7 +226,7 @@ public:
             this->b().set_B.erase(&(pairPtr->second));
             b().container.erase(
                 std::remove_if(this->b().container.begin(), this->b().container.end(),
-                               [&pairPtr](const std::pair<T, U>* i) { return *i == pairPtr; }),
+                               [&pairPtr](const std::unique_ptr<Pair>& i) { return i.get() == pairPtr; }),
                 this->b().container.end());
         }
     } left;
@@ -309,7 +304,7 @@ public:
             this->b().set_B.erase(&(pairPtr->second));
             b().container.erase(
                 std::remove_if(this->b().container.begin(), this->b().container.end(),
-                               [&pairPtr](const std::pair<T, U>* i) { return *i == pairPtr; }),
+                               [&pairPtr](const std::unique_ptr<Pair>& i) { return i.get() == pairPtr; }),
                 this->b().container.end());
         }
     } right;
-- 
2.43.0


From 3428b27b3c465077ef81ed3cd36208d0a2e6e600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:58 +0000
Subject: [PATCH 54/66] fix: project the box onto the image as it is seen from
 the view orientation

---
 freud/diffraction.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/freud/diffraction.py b/freud/diffraction.py
index 65518a7..50e1476 100644
--- a/freud/diffraction.py
+++ b/freud/diffraction.py
@@ -589,7 +589,8 @@ class DiffractionPattern(_Compute):
                 Inverse shear matrix.
         """
         # Rotate the box matrix by the view orientation.
-        box_matrix = rowan.rotate(view_orientation, box.to_matrix())
+        # The box vectors are the columns of the matrix.
+        box_matrix = rowan.rotate(view_orientation, box.to_matrix().T).T
 
         # Compute normals for each box face.
         # The area of the face is the length of the vector.
@@ -652,10 +653,11 @@ class DiffractionPattern(_Compute):
 
         # Translation for [roll_shift, roll_shift]
         # Then shift using ss
+        # Rows of the image are values of k_y, columns are values of k_x.
         shear_matrix = np.array(
             [
-                [ss[1, 0], ss[0, 0], roll_shift],
-                [ss[1, 1], ss[0, 1], roll_shift],
+                [ss[0, 1], ss[1, 1], roll_shift],
+                [ss[0, 0], ss[1, 0], roll_shift],
                 [0, 0, 1],
             ]
         )
-- 
2.43.0


From 14dcc7f8951ec0b7c21e8b3962c64d0722bcc4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:58 +0000
Subject: [PATCH 55/66] fix: give the wave vectors of a diffraction image in
 the frame of the points

---
 freud/diffraction.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/freud/diffraction.py b/freud/diffraction.py
index 50e1476..cbb1687 100644
--- a/freud/diffraction.py
+++ b/freud/diffraction.py
@@ -828,8 +828,12 @@ class DiffractionPattern(_Compute):
         """(``output_size``, ``output_size``, 3) :class:`numpy.ndarray`: \
         k-vectors."""
         if not self._k_vectors_cached:
+            # The points were rotated by the view orientation to be seen in the
+            # plane of the image, and back is the way to their own frame.
             self._k_vectors = (
-                rowan.rotate(self._view_orientation, self._k_vectors_orig)
+                rowan.rotate(
+                    rowan.conjugate(self._view_orientation), self._k_vectors_orig
+                )
                 * self._k_scale_factor
             )
             self._k_vectors_cached = True
-- 
2.43.0


From e07320567de925740986bcbbed89a448dd7a958e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:58 +0000
Subject: [PATCH 56/66] fix: give the plots of boxes and systems the title that
 was asked for

---
 freud/plot.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/freud/plot.py b/freud/plot.py
index 1d81f80..d5b6a7c 100644
--- a/freud/plot.py
+++ b/freud/plot.py
@@ -154,6 +154,8 @@ def box_plot(box, title=None, ax=None, image=None, *args, **kwargs):
         ]
         _set_3d_axes_equal(ax, limits)
 
+    if title is not None:
+        ax.set_title(title)
     return ax
 
 
@@ -204,6 +206,8 @@ def system_plot(system, title=None, ax=None, *args, **kwargs):
         ]
         _set_3d_axes_equal(ax, limits=limits)
 
+    if title is not None:
+        ax.set_title(title)
     return ax, sc
 
 
-- 
2.43.0


From 8ae1f84753a0024f29d5500518f1fc8c29dd57ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:58 +0000
Subject: [PATCH 57/66] fix: draw all edges of a box as asked

---
 freud/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/freud/plot.py b/freud/plot.py
index d5b6a7c..6cbde98 100644
--- a/freud/plot.py
+++ b/freud/plot.py
@@ -141,9 +141,9 @@ def box_plot(box, title=None, ax=None, image=None, *args, **kwargs):
             corners[[2, 6]],
             corners[[3, 7]],
         ]
+        color = kwargs.pop("color", "k")
         for path in paths:
-            color = kwargs.pop("color", "k")
-            ax.plot(path[:, 0], path[:, 1], path[:, 2], color=color)
+            ax.plot(path[:, 0], path[:, 1], path[:, 2], color=color, *args, **kwargs)  # noqa: B026
         ax.set_xlabel("$x$")
         ax.set_ylabel("$y$")
         ax.set_zlabel("$z$")
-- 
2.43.0


From e856d981c59ab91bee3cda4f31392a88011e9bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:58 +0000
Subject: [PATCH 58/66] fix: close the figure made for a png representation

---
 freud/plot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/freud/plot.py b/freud/plot.py
index 6cbde98..f7dc81c 100644
--- a/freud/plot.py
+++ b/freud/plot.py
@@ -41,6 +41,7 @@ def _ax_to_bytes(ax):
     FigureCanvasAgg(fig)
     fig.savefig(f, format="png")
     fig.clf()
+    plt.close(fig)
     return f.getvalue()
 
 
-- 
2.43.0


From 8ad23fd813964d31dd1c1a4be8c977b2128dacc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:58 +0000
Subject: [PATCH 59/66] fix: plot the PMFT with x along the x axis

---
 freud/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freud/plot.py b/freud/plot.py
index f7dc81c..8dc7cb1 100644
--- a/freud/plot.py
+++ b/freud/plot.py
@@ -366,7 +366,7 @@ def pmft_plot(pmft, ax=None, cmap="viridis"):
     cax = ax_divider.append_axes("right", size="7%", pad="10%")
 
     im = ax.imshow(
-        np.flipud(pmft_arr),
+        np.flipud(pmft_arr.T),
         extent=[xlims[0], xlims[1], ylims[0], ylims[1]],
         interpolation="nearest",
         cmap=cmap,
-- 
2.43.0


From 0d32390df7816df0cf5d162d0bc3fad69565190b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:58 +0000
Subject: [PATCH 60/66] fix: plot a diffraction pattern with k_y growing
 upwards, as its axis says

---
 freud/plot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/freud/plot.py b/freud/plot.py
index 8dc7cb1..588fc0f 100644
--- a/freud/plot.py
+++ b/freud/plot.py
@@ -555,6 +555,7 @@ def diffraction_plot(
     extent = (np.min(k_values), np.max(k_values), np.min(k_values), np.max(k_values))
     im = ax.imshow(
         np.clip(diffraction, vmin, vmax),
+        origin="lower",
         interpolation="nearest",
         cmap=cmap,
         norm=norm,
-- 
2.43.0


From 1dfc422bf788c22fc67747cca7237eb42da43103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:58 +0000
Subject: [PATCH 61/66] fix: name the normalization mode in the representation
 of an RDF

---
 freud/density.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freud/density.py b/freud/density.py
index bad5255..e7a903f 100644
--- a/freud/density.py
+++ b/freud/density.py
@@ -666,7 +666,8 @@ class RDF(_SpatialHistogram1D):
     def __repr__(self):
         return (
             f"freud.density.{type(self).__name__}(bins={len(self.bin_centers)}, "
-            f"r_max={self.bounds[1]}, r_min={self.bounds[0]})"
+            f"r_max={self.bounds[1]}, r_min={self.bounds[0]}, "
+            f"normalization_mode='{self.mode}')"
         )
 
     def plot(self, ax=None):
-- 
2.43.0


From a02d55267f85bb10d6fca0649d949904fe4ec8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:51 +0000
Subject: [PATCH 62/66] fix: give the range of wave numbers of a Debye
 structure factor as it was asked for

---
 freud/diffraction.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/freud/diffraction.py b/freud/diffraction.py
index cbb1687..ca6fcec 100644
--- a/freud/diffraction.py
+++ b/freud/diffraction.py
@@ -142,6 +142,7 @@ class StaticStructureFactorDebye(_StaticStructureFactor):
         self._cpp_obj = freud._diffraction.StaticStructureFactorDebye(
             num_k_values, k_max, k_min
         )
+        self._bounds = (float(k_min), float(k_max))
 
     @property
     def num_k_values(self):
@@ -157,8 +158,9 @@ class StaticStructureFactorDebye(_StaticStructureFactor):
     def bounds(self):
         """tuple: A tuple indicating the smallest and largest :math:`k` values
         used."""
-        k_values = self.k_values
-        return (k_values[0], k_values[len(k_values) - 1])
+        # The values at the centers of the bins are subject to rounding, which
+        # makes a smallest value of zero slightly negative.
+        return self._bounds
 
     def compute(self, system, query_points=None, N_total=None, reset=True):
         r"""Computes static structure factor.
-- 
2.43.0


From dea2d7efc1fd18c6323cfd2ad651fedbd37bb185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:49 +0000
Subject: [PATCH 63/66] fix: plot Voronoi diagrams with a matplotlib that has
 no cm.get_cmap

---
 freud/plot.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/freud/plot.py b/freud/plot.py
index 588fc0f..8b881fb 100644
--- a/freud/plot.py
+++ b/freud/plot.py
@@ -13,7 +13,6 @@ _HAS_MPL = find_spec("matplotlib") is not None
 if _HAS_MPL:
     import matplotlib.colors
     import matplotlib.pyplot as plt
-    from matplotlib import cm
     from matplotlib.backends.backend_agg import FigureCanvasAgg
     from matplotlib.collections import PatchCollection
     from matplotlib.colorbar import Colorbar
@@ -480,7 +479,7 @@ def voronoi_plot(voronoi, box, ax=None, color_by=None, cmap=None):
                 )
             cmap = "tab20"
 
-    cmap = cm.get_cmap(cmap, num_colors)
+    cmap = plt.get_cmap(cmap, num_colors)
     bounds = np.arange(np.min(colors), np.max(colors) + 1)
 
     patch_collection.set_array(np.array(colors) - 0.5)
-- 
2.43.0


From 2af3a07510efe6edc1810766179d2f6175382e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:18 +0000
Subject: [PATCH 64/66] fix: keep one Voronoi diagram when a computation of
 another fails

A computation that failed (out of memory, say) left the volumes and the
polytopes of the new diagram, partly filled, with the neighbor list of the
old one.  A neighbor list that was read from the object changed when the
object computed another diagram.
---
 freud/locality/Voronoi.cc | 44 +++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/freud/locality/Voronoi.cc b/freud/locality/Voronoi.cc
index cf1638d..0e6dd70 100644
--- a/freud/locality/Voronoi.cc
+++ b/freud/locality/Voronoi.cc
@@ -30,15 +30,17 @@ namespace freud { namespace locality {
 // Voronoi calculations should be kept in double precision.
 void Voronoi::compute(const std::shared_ptr<freud::locality::NeighborQuery>& nq)
 {
-    m_box = nq->getBox();
+    const box::Box box(nq->getBox());
     const auto n_points = nq->getNPoints();
 
-    m_polytopes.resize(n_points);
-    m_volumes = std::make_shared<util::ManagedArray<double>>(n_points);
+    // The members are set at the end, so that they belong to the same
+    // diagram even if this computation fails.
+    std::vector<std::vector<vec3<double>>> polytopes(n_points);
+    auto volumes = std::make_shared<util::ManagedArray<double>>(n_points);
 
-    const vec3<float> v1 = m_box.getLatticeVector(0);
-    const vec3<float> v2 = m_box.getLatticeVector(1);
-    const vec3<float> v3 = (m_box.is2D() ? vec3<float>(0, 0, 1) : m_box.getLatticeVector(2));
+    const vec3<float> v1 = box.getLatticeVector(0);
+    const vec3<float> v2 = box.getLatticeVector(1);
+    const vec3<float> v3 = (box.is2D() ? vec3<float>(0, 0, 1) : box.getLatticeVector(2));
 
     // This heuristic for choosing blocks is based on the voro::pre_container
     // guess_optimal method. By computing the heuristic directly, we avoid
@@ -46,10 +48,10 @@ void Voronoi::compute(const std::shared_ptr<freud::locality::NeighborQuery>& nq)
     // pre_container cannot be used to set up container_periodic (only
     // non-periodic containers are compatible).
     const float block_scale = std::pow(
-        static_cast<float>(n_points / (voro::optimal_particles * m_box.getVolume())), float(1.0 / 3.0));
-    const int voro_blocks_x = int(m_box.getLx() * block_scale + 1);
-    const int voro_blocks_y = int(m_box.getLy() * block_scale + 1);
-    const int voro_blocks_z = int(m_box.getLz() * block_scale + 1);
+        static_cast<float>(n_points / (voro::optimal_particles * box.getVolume())), float(1.0 / 3.0));
+    const int voro_blocks_x = int(box.getLx() * block_scale + 1);
+    const int voro_blocks_y = int(box.getLy() * block_scale + 1);
+    const int voro_blocks_z = int(box.getLz() * block_scale + 1);
 
     voro::container_periodic container(v1.x, v2.x, v2.y, v3.x, v3.y, v3.z, voro_blocks_x, voro_blocks_y,
                                        voro_blocks_z, 3);
@@ -100,7 +102,7 @@ void Voronoi::compute(const std::shared_ptr<freud::locality::NeighborQuery>& nq)
 
                 // In 2D systems, only use vertices from the upper plane
                 // to prevent double-counting, and set z=0 manually
-                if (m_box.is2D())
+                if (box.is2D())
                 {
                     if (vert_z < 0)
                     {
@@ -113,7 +115,7 @@ void Voronoi::compute(const std::shared_ptr<freud::locality::NeighborQuery>& nq)
             }
 
             // Sort relative vertices by their angle in 2D systems
-            if (m_box.is2D())
+            if (box.is2D())
             {
                 std::sort(relative_vertices.begin(), relative_vertices.end(),
                           [](const vec3<double>& a, const vec3<double>& b) {
@@ -129,10 +131,10 @@ void Voronoi::compute(const std::shared_ptr<freud::locality::NeighborQuery>& nq)
             std::transform(
                 relative_vertices.begin(), relative_vertices.end(), std::back_inserter(system_vertices),
                 [&](const auto& relative_vertex) { return relative_vertex + query_point_system_coords; });
-            m_polytopes[query_point_id] = system_vertices;
+            polytopes[query_point_id] = system_vertices;
 
             // Save cell volume
-            (*m_volumes)[query_point_id] = cell.volume();
+            (*volumes)[query_point_id] = cell.volume();
 
             // Compute cell neighbors
             size_t neighbor_counter(0);
@@ -153,7 +155,7 @@ void Voronoi::compute(const std::shared_ptr<freud::locality::NeighborQuery>& nq)
                 // particles in 2D systems where the neighbors are very close.
                 // It seems like an issue of numerical imprecision but could be
                 // some other pathological case.
-                if (m_box.is2D() && std::abs(normal.z) > 0.5
+                if (box.is2D() && std::abs(normal.z) > 0.5
                     || (normal.x == 0 && normal.y == 0 && normal.z == 0))
                 {
                     continue;
@@ -208,15 +210,21 @@ void Voronoi::compute(const std::shared_ptr<freud::locality::NeighborQuery>& nq)
 
     unsigned int const num_bonds = bonds.size();
 
-    m_neighbor_list->resize(num_bonds);
-    m_neighbor_list->setNumBonds(num_bonds, n_points, n_points);
+    auto neighbor_list = std::make_shared<NeighborList>();
+    neighbor_list->resize(num_bonds);
+    neighbor_list->setNumBonds(num_bonds, n_points, n_points);
 
     util::forLoopWrapper(0, num_bonds, [&](size_t begin, size_t end) {
         for (size_t bond = begin; bond != end; ++bond)
         {
-            m_neighbor_list->setNeighborEntry(bond, bonds[bond]);
+            neighbor_list->setNeighborEntry(bond, bonds[bond]);
         }
     });
+
+    m_box = box;
+    m_polytopes.swap(polytopes);
+    m_volumes = volumes;
+    m_neighbor_list = neighbor_list;
 }
 
 }; }; // end namespace freud::locality
-- 
2.43.0


From 1d3e04ab4062df93f9b379585c0ecff74d3eb091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:20 +0000
Subject: [PATCH 65/66] fix: give vectors on the lower faces of a box the image
 they are wrapped from

A vector at -L/2 stays there when it is wrapped, but its image was -1, so
that unwrapping it with its image moved it by a lattice vector.
---
 freud/box/Box.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/freud/box/Box.h b/freud/box/Box.h
index a52ac39..61ff502 100644
--- a/freud/box/Box.h
+++ b/freud/box/Box.h
@@ -274,14 +274,15 @@ public:
      */
     void getImage(const vec3<float>& v, vec3<int>& image) const
     {
-        vec3<float> f = makeFractional(v) - vec3<float>(0.5, 0.5, 0.5);
+        // As in wrap(), the lower faces belong to the box and the upper ones to the next image.
+        vec3<float> f = makeFractional(v);
         if (m_2d)
         {
             f.z = float(0.0);
         }
-        image.x = (int) ((f.x >= float(0.0)) ? f.x + float(0.5) : f.x - float(0.5));
-        image.y = (int) ((f.y >= float(0.0)) ? f.y + float(0.5) : f.y - float(0.5));
-        image.z = (int) ((f.z >= float(0.0)) ? f.z + float(0.5) : f.z - float(0.5));
+        image.x = (int) std::floor(f.x);
+        image.y = (int) std::floor(f.y);
+        image.z = (int) std::floor(f.z);
     }
 
     //! Get the periodic image vectors belongs to
-- 
2.43.0


From 464003b4975212a61324a026e6be13a17325d6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:20 +0000
Subject: [PATCH 66/66] fix: count points on the faces of a box as contained in
 it

Box.contains is documented to take coordinates in [-L/2, L/2], but it
refused those at either end, among them the points at a lattice point of
the systems that UnitCell.generate_system makes.
---
 freud/box/Box.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/freud/box/Box.h b/freud/box/Box.h
index 61ff502..1b80f55 100644
--- a/freud/box/Box.h
+++ b/freud/box/Box.h
@@ -471,9 +471,10 @@ public:
         util::forLoopWrapper(0, n_points, [&](size_t begin, size_t end) {
             std::transform(&points[begin], &points[end], &contains_mask[begin],
                            [this](const vec3<float>& point) -> bool {
-                               vec3<int> image(0, 0, 0);
-                               getImage(point, image);
-                               return image == vec3<int>(0, 0, 0);
+                               // the faces belong to the box
+                               const vec3<float> f = makeFractional(point);
+                               const auto within = [](float x) { return x >= float(0.0) && x <= float(1.0); };
+                               return within(f.x) && within(f.y) && (m_2d || within(f.z));
                            });
         });
     }
-- 
2.43.0

