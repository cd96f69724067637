From 1fda13ff3298cdfb7e4afe2beb910f999a8003e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:32 +0000
Subject: [PATCH 01/64] fix: mark unfilled result slots of graph searches as
 empty

When a Vamana search finds fewer vectors than requested (short windows over
disconnected graphs, small or mostly deleted collections), the remaining result
slots exposed stale search buffer entries: repeated, deleted or out-of-range ids,
and reads past the end of the dynamic search buffer. Store the sentinel neighbor
instead, as the exhaustive search does, and leave it alone when translating to
external ids.
---
 include/svs/index/vamana/dynamic_index.h |  4 ++++
 include/svs/index/vamana/extensions.h    | 10 +++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/svs/index/vamana/dynamic_index.h b/include/svs/index/vamana/dynamic_index.h
index e8b288e..e1cc544 100644
--- a/include/svs/index/vamana/dynamic_index.h
+++ b/include/svs/index/vamana/dynamic_index.h
@@ -381,6 +381,10 @@ class MutableVamanaIndex {
             [&](const auto is, uint64_t /*tid*/) {
                 for (auto i : is) {
                     for (size_t j = 0, jmax = getsize<1>(ids); j < jmax; ++j) {
+                        // Slots for which no neighbor was found have no external ID.
+                        if (ids.at(i, j) == std::numeric_limits<size_t>::max()) {
+                            continue;
+                        }
                         auto internal = lib::narrow_cast<Idx>(ids.at(i, j));
                         ids.at(i, j) = translate_internal_id(internal);
                     }
diff --git a/include/svs/index/vamana/extensions.h b/include/svs/index/vamana/extensions.h
index 647458e..666ee07 100644
--- a/include/svs/index/vamana/extensions.h
+++ b/include/svs/index/vamana/extensions.h
@@ -19,6 +19,7 @@
 #include "svs/index/vamana/greedy_search.h"
 #include "svs/lib/invoke.h"
 #include "svs/lib/misc.h"
+#include "svs/lib/neighbor.h"
 #include "svs/lib/preprocessor.h"
 #include "svs/lib/threads.h"
 
@@ -518,9 +519,16 @@ void svs_invoke(
         single_search(dataset, search_buffer, distance, queries.get_datum(i), search);
 
         // Copy back results.
-        for (size_t j = 0; j < num_neighbors; ++j) {
+        // If fewer than the requested number of neighbors were found, mark the remaining
+        // slots as empty instead of exposing stale entries of the search buffer.
+        size_t num_found = std::min(num_neighbors, search_buffer.size());
+        for (size_t j = 0; j < num_found; ++j) {
             result.set(search_buffer[j], i, j);
         }
+        using Compare = typename SearchBuffer::compare_type;
+        for (size_t j = num_found; j < num_neighbors; ++j) {
+            result.set(type_traits::sentinel_v<Neighbor<I>, Compare>, i, j);
+        }
     }
 }
 
-- 
2.43.0


From f4718582b01b993db7a7cf93086438a55b6fb09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:17 +0000
Subject: [PATCH 02/64] verif: guarded hook for the busy-wait primitive
 (SVS_VERIF_HOOKS)

---
 include/svs/lib/spinlock.h       | 10 ++++++++++
 include/svs/lib/threads/thread.h |  5 +++++
 2 files changed, 15 insertions(+)

diff --git a/include/svs/lib/spinlock.h b/include/svs/lib/spinlock.h
index c363737..152e2ee 100644
--- a/include/svs/lib/spinlock.h
+++ b/include/svs/lib/spinlock.h
@@ -13,10 +13,20 @@
 
 #include <atomic>
 
+// Verification hook: an externally provided function is called in place of the pause
+// instruction so that schedules can be perturbed and oversubscribed runs stay fast.
+#if defined(SVS_VERIF_HOOKS)
+extern "C" void svs_verif_pause();
+#endif
+
 namespace svs {
 
 namespace detail {
+#if defined(SVS_VERIF_HOOKS)
+inline void pause() { svs_verif_pause(); }
+#else
 inline void pause() { __builtin_ia32_pause(); }
+#endif
 } // namespace detail
 
 ///
diff --git a/include/svs/lib/threads/thread.h b/include/svs/lib/threads/thread.h
index f240678..9b136d1 100644
--- a/include/svs/lib/threads/thread.h
+++ b/include/svs/lib/threads/thread.h
@@ -44,7 +44,12 @@ class ThreadCrashedError : public std::runtime_error {
 ///
 /// Thread pool consisting of SVS threads.
 ///
+#if defined(SVS_VERIF_HOOKS)
+// Verification hook: sleep early so that the sleep and wake-up transitions are exercised.
+constexpr size_t default_spintime() { return 300; }
+#else
 constexpr size_t default_spintime() { return 1'000'000; }
+#endif
 constexpr size_t short_spintime() { return 1'000; }
 
 // ThreadState is used to communicate information between the worker thread and the
-- 
2.43.0


From abf13758ee8415eb65cc4cbd561e24eccc3b9e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:53 +0000
Subject: [PATCH 03/64] fix: return the object from ReadWriteProtected copy
 assignment

---
 include/svs/lib/concurrency/readwrite_protected.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/svs/lib/concurrency/readwrite_protected.h b/include/svs/lib/concurrency/readwrite_protected.h
index 01c0423..5b3f56b 100644
--- a/include/svs/lib/concurrency/readwrite_protected.h
+++ b/include/svs/lib/concurrency/readwrite_protected.h
@@ -56,6 +56,7 @@ template <typename T> class ReadWriteProtected {
             return *this;
         }
         set(other.get());
+        return *this;
     }
 
     /// @brief Move construction by move-assigning the shared object.
-- 
2.43.0


From 8afc4c650fd2be0e534e732c355e316c7a22f64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:53 +0000
Subject: [PATCH 04/64] fix: release memory of AlignedAllocator with the size
 it was allocated with

---
 include/svs/lib/threads/threadlocal.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/svs/lib/threads/threadlocal.h b/include/svs/lib/threads/threadlocal.h
index 5572769..3b7cc0a 100644
--- a/include/svs/lib/threads/threadlocal.h
+++ b/include/svs/lib/threads/threadlocal.h
@@ -72,12 +72,18 @@ template <typename T, size_t Alignment = CACHE_LINE_BYTES> struct AlignedAllocat
 
     // Methods
     value_type* allocate(size_t count) {
-        size_t bytes = alignment * lib::div_round_up(sizeof(T) * count, alignment);
-        return static_cast<value_type*>(::operator new(bytes, std::align_val_t{alignment}));
+        return static_cast<value_type*>(
+            ::operator new(allocation_size(count), std::align_val_t{alignment})
+        );
     }
 
     void deallocate(value_type* ptr, size_t count) noexcept {
-        ::operator delete(ptr, count, std::align_val_t{alignment});
+        ::operator delete(ptr, allocation_size(count), std::align_val_t{alignment});
+    }
+
+  private:
+    static constexpr size_t allocation_size(size_t count) {
+        return alignment * lib::div_round_up(sizeof(T) * count, alignment);
     }
 };
 
-- 
2.43.0


From 6a0e9ba7fd929ce5569420152540fbbc37705c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:53 +0000
Subject: [PATCH 05/64] fix: match allocation and release in lib::Allocator

---
 include/svs/lib/memory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/svs/lib/memory.h b/include/svs/lib/memory.h
index 57c7348..c03a0d3 100644
--- a/include/svs/lib/memory.h
+++ b/include/svs/lib/memory.h
@@ -56,7 +56,7 @@ template <typename T> struct Allocator {
     }
 
     constexpr void deallocate(value_type* ptr, size_t count) noexcept {
-        ::operator delete(ptr, count);
+        ::operator delete(ptr, count * sizeof(T), std::align_val_t(alignof(T)));
     }
 
     // Intercept zero-argument construction to do default initialization.
-- 
2.43.0


From 4dd97997027c98fe753e89c4850130378fcd614e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:53 +0000
Subject: [PATCH 06/64] fix: do not inspect the last element of an empty search
 buffer

---
 include/svs/index/vamana/search_buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/svs/index/vamana/search_buffer.h b/include/svs/index/vamana/search_buffer.h
index 3a9b6cf..50f0bd7 100644
--- a/include/svs/index/vamana/search_buffer.h
+++ b/include/svs/index/vamana/search_buffer.h
@@ -296,7 +296,7 @@ template <typename Idx, typename Cmp = std::less<>> class SearchBuffer {
     /// returns ``true``.
     ///
     bool can_skip(float distance) const {
-        return compare_(back().distance(), distance) && full();
+        return full() && compare_(back().distance(), distance);
     }
 
     ///
-- 
2.43.0


From 7857d23cacfe1113f51c7e30d8ae0635382ca9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:53 +0000
Subject: [PATCH 07/64] fix: clear pruning results when the candidate pool is
 empty

---
 include/svs/index/vamana/prune.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/svs/index/vamana/prune.h b/include/svs/index/vamana/prune.h
index ee6b13d..0c6dee8 100644
--- a/include/svs/index/vamana/prune.h
+++ b/include/svs/index/vamana/prune.h
@@ -112,11 +112,11 @@ void heuristic_prune_neighbors(
 ) {
     auto cmp = distance::comparator(distance_function);
     assert(std::is_sorted(pool.begin(), pool.end(), cmp));
+    result.clear();
     if (pool.empty()) {
         return;
     }
 
-    result.clear();
     result.reserve(max_result_size);
     size_t poolsize = pool.size();
     if (poolsize == 0) {
@@ -188,11 +188,11 @@ void heuristic_prune_neighbors(
 ) {
     auto cmp = distance::comparator(distance_function);
     assert(std::is_sorted(pool.begin(), pool.end(), cmp));
+    result.clear();
     if (pool.empty()) {
         return;
     }
 
-    result.clear();
     result.reserve(max_result_size);
     size_t poolsize = pool.size();
     std::vector<float> pruned(poolsize, type_traits::tombstone_v<float, decltype(cmp)>);
@@ -262,11 +262,11 @@ void heuristic_prune_neighbors(
 ) {
     auto cmp = distance::comparator(distance_function);
     assert(std::is_sorted(pool.begin(), pool.end(), cmp));
+    result.clear();
     if (pool.empty()) {
         return;
     }
 
-    result.clear();
     result.reserve(max_result_size);
     size_t poolsize = pool.size();
     std::vector<bool> pruned(poolsize, false);
-- 
2.43.0


From b625b025870ccda51dd22ca11de2221717b0214d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:53 +0000
Subject: [PATCH 08/64] fix: take the vertex lock while reading adjacency lists
 for reverse edges

---
 include/svs/index/vamana/vamana_build.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/svs/index/vamana/vamana_build.h b/include/svs/index/vamana/vamana_build.h
index b53c690..1167a55 100644
--- a/include/svs/index/vamana/vamana_build.h
+++ b/include/svs/index/vamana/vamana_build.h
@@ -451,8 +451,16 @@ class VamanaBuilder {
         auto range = threads::StaticPartition{indices};
         backedge_buffer_.reset();
         threads::run(threadpool_, range, [&](const auto& is, uint64_t SVS_UNUSED(tid)) {
+            // Other threads may be adding edges to this node's adjacency list.
+            // Take a snapshot while holding the node's lock.
+            std::vector<Idx> outgoing{};
             for (auto node_id : is) {
-                for (auto other_id : graph_.get_node(node_id)) {
+                {
+                    std::lock_guard lock{vertex_locks_[node_id]};
+                    const auto& neighbors = graph_.get_node(node_id);
+                    outgoing.assign(neighbors.begin(), neighbors.end());
+                }
+                for (auto other_id : outgoing) {
                     std::lock_guard lock{vertex_locks_[other_id]};
                     if (graph_.get_node_degree(other_id) < params_.graph_max_degree) {
                         graph_.add_edge(other_id, node_id);
-- 
2.43.0


From 6143703143962bb19460aa244b08ea099c08fea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:56 +0000
Subject: [PATCH 09/64] fix: skip empty result slots when assigning vectors to
 clusters

---
 include/svs/index/inverted/clustering.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/svs/index/inverted/clustering.h b/include/svs/index/inverted/clustering.h
index d8b9018..f22392d 100644
--- a/include/svs/index/inverted/clustering.h
+++ b/include/svs/index/inverted/clustering.h
@@ -706,6 +706,10 @@ void post_process_neighbors(
                     break;
                 }
                 auto centroid_local_id = indices.at(i, j);
+                // Fewer centroids were found than requested: the rest is empty.
+                if (centroid_local_id == std::numeric_limits<J>::max()) {
+                    break;
+                }
                 auto centroid_global_id = centroid_translator(centroid_local_id);
                 neighbor_buffer.push_back(
                     {centroid_global_id, distance, detail::LocalID{centroid_local_id}}
-- 
2.43.0


From 17340a0add5d3a8af958e91b7171a1237db5eb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:56 +0000
Subject: [PATCH 10/64] fix: mark unfilled result slots of inverted searches as
 empty

---
 include/svs/index/inverted/memory_based.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/svs/index/inverted/memory_based.h b/include/svs/index/inverted/memory_based.h
index 6e5cf39..d26cb1c 100644
--- a/include/svs/index/inverted/memory_based.h
+++ b/include/svs/index/inverted/memory_based.h
@@ -393,6 +393,7 @@ template <typename Index, typename Cluster> class InvertedIndex {
                 // A search buffer to accumulate results of the cluster search.
                 auto buffer = threads::shallow_copy(scratch.buffer);
                 buffer.change_maxsize(num_neighbors);
+                auto compare_results = distance::comparator(index_.get_distance());
 
                 for (auto i : is) {
                     buffer.clear();
@@ -437,9 +438,19 @@ template <typename Index, typename Cluster> class InvertedIndex {
                     }
 
                     // Store results
-                    for (size_t j = 0; j < num_neighbors; ++j) {
+                    size_t num_found = std::min(num_neighbors, buffer.size());
+                    for (size_t j = 0; j < num_found; ++j) {
                         results.set(buffer[j], i, j);
                     }
+                    // Fewer neighbors were found than requested: the rest is empty.
+                    using empty_type = Neighbor<Idx>;
+                    for (size_t j = num_found; j < num_neighbors; ++j) {
+                        results.set(
+                            type_traits::sentinel_v<empty_type, decltype(compare_results)>,
+                            i,
+                            j
+                        );
+                    }
                 }
             }
         );
-- 
2.43.0


From 70607de4fb0b83ba8873521c902453b42a1fd740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:56 +0000
Subject: [PATCH 11/64] fix: visit the nearest clusters also when they are at
 the cutoff distance

---
 include/svs/index/inverted/memory_based.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/svs/index/inverted/memory_based.h b/include/svs/index/inverted/memory_based.h
index d26cb1c..9bfac75 100644
--- a/include/svs/index/inverted/memory_based.h
+++ b/include/svs/index/inverted/memory_based.h
@@ -413,7 +413,7 @@ template <typename Index, typename Cluster> class InvertedIndex {
 
                     for (size_t j = 0, jmax = scratch_buffer.size(); j < jmax; ++j) {
                         auto candidate = scratch_buffer[j];
-                        if (!compare(candidate.distance(), cutoff_distance)) {
+                        if (compare(cutoff_distance, candidate.distance())) {
                             break;
                         }
 
-- 
2.43.0


From 812b4d9d830db9bbf449044306c4b2dc66245b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:56 +0000
Subject: [PATCH 12/64] fix: use the primary search parameters given to an
 inverted search

---
 include/svs/index/inverted/memory_based.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/svs/index/inverted/memory_based.h b/include/svs/index/inverted/memory_based.h
index 9bfac75..45b519c 100644
--- a/include/svs/index/inverted/memory_based.h
+++ b/include/svs/index/inverted/memory_based.h
@@ -385,7 +385,7 @@ template <typename Index, typename Cluster> class InvertedIndex {
                 size_t num_neighbors = results.n_neighbors();
 
                 // Allocate scratch space to use the externally threaded
-                auto scratch = index_.scratchspace();
+                auto scratch = index_.scratchspace(search_parameters.primary_parameters_);
                 if (scratch.buffer.capacity() == 0) {
                     scratch.buffer.change_maxsize(1);
                 }
-- 
2.43.0


From 3538bbffe604787550d2a9aa937f5da64e76430f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:56 +0000
Subject: [PATCH 13/64] fix: bound inner products correctly when the best one
 is not positive

---
 include/svs/index/inverted/common.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/svs/index/inverted/common.h b/include/svs/index/inverted/common.h
index 2e64dde..471e92d 100644
--- a/include/svs/index/inverted/common.h
+++ b/include/svs/index/inverted/common.h
@@ -35,9 +35,8 @@ template <typename T> inline T bound_with(T nearest, T epsilon, svs::DistanceL2)
 }
 
 template <typename T> inline T bound_with(T nearest, T epsilon, svs::DistanceIP) {
-    // TODO: What do we do if the best match is simply bad?
-    assert(nearest > 0.0f);
-    return nearest / (1 + epsilon);
+    // Larger is better: relaxing the bound must always move it down.
+    return nearest > 0 ? nearest / (1 + epsilon) : nearest * (1 + epsilon);
 }
 
 } // namespace svs::index::inverted
-- 
2.43.0


From adfbe2b4386b0f745f6b74e78f520e7f981b94c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:56 +0000
Subject: [PATCH 14/64] fix: pick initial centroids only among existing vectors

---
 include/svs/core/kmeans.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/svs/core/kmeans.h b/include/svs/core/kmeans.h
index cfe02f5..b94c766 100644
--- a/include/svs/core/kmeans.h
+++ b/include/svs/core/kmeans.h
@@ -151,7 +151,7 @@ data::SimpleData<float> train_impl(
     // The cluster centroids
     auto centroids = data::SimpleData<float>{num_clusters, ndims};
     auto rng = std::mt19937_64(parameters.seed);
-    auto distribution = std::uniform_int_distribution<size_t>(0, data.size());
+    auto distribution = std::uniform_int_distribution<size_t>(0, data.size() - 1);
     std::unordered_set<size_t> seen{};
     for (size_t i = 0; i < num_clusters; ++i) {
         // Pick a vector a random.
-- 
2.43.0


From aafa31defdc4a016787de2721a587956bc8e4962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:28 +0000
Subject: [PATCH 15/64] fix: initialize all construction parameters of
 assembled dynamic indexes

---
 include/svs/index/vamana/dynamic_index.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/svs/index/vamana/dynamic_index.h b/include/svs/index/vamana/dynamic_index.h
index e1cc544..9ab5117 100644
--- a/include/svs/index/vamana/dynamic_index.h
+++ b/include/svs/index/vamana/dynamic_index.h
@@ -165,7 +165,9 @@ class MutableVamanaIndex {
         , distance_{std::move(distance_function)}
         , threadpool_{std::move(threadpool)}
         , search_parameters_{vamana::construct_default_search_parameters(data_)}
-        , construction_window_size_{2 * graph.max_degree()} {
+        , construction_window_size_{2 * graph_.max_degree()}
+        , max_candidates_{5 * construction_window_size_}
+        , prune_to_{graph_.max_degree()} {
         translator_.insert(external_ids, threads::UnitRange<Idx>(0, external_ids.size()));
     }
 
-- 
2.43.0


From 170a2888b8bc2501bccfe3df7b4b574c70f819af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:28 +0000
Subject: [PATCH 16/64] fix: refuse to construct a dynamic index with a wrong
 number of ids

---
 include/svs/index/vamana/dynamic_index.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/svs/index/vamana/dynamic_index.h b/include/svs/index/vamana/dynamic_index.h
index 9ab5117..11e8e6f 100644
--- a/include/svs/index/vamana/dynamic_index.h
+++ b/include/svs/index/vamana/dynamic_index.h
@@ -168,7 +168,7 @@ class MutableVamanaIndex {
         , construction_window_size_{2 * graph_.max_degree()}
         , max_candidates_{5 * construction_window_size_}
         , prune_to_{graph_.max_degree()} {
-        translator_.insert(external_ids, threads::UnitRange<Idx>(0, external_ids.size()));
+        translator_.insert(external_ids, threads::UnitRange<Idx>(0, data_.size()));
     }
 
     template <typename ExternalIds>
@@ -214,7 +214,7 @@ class MutableVamanaIndex {
         , alpha_(parameters.alpha)
         , use_full_search_history_{parameters.use_full_search_history} {
         // Setup the initial translation of external to internal ids.
-        translator_.insert(external_ids, threads::UnitRange<Idx>(0, external_ids.size()));
+        translator_.insert(external_ids, threads::UnitRange<Idx>(0, data_.size()));
 
         // Compute the entry point.
         entry_point_.push_back(extensions::compute_entry_point(data_, threadpool_));
-- 
2.43.0


From 7d72508596728198a27712ee8804fd4e6c63aa04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:28 +0000
Subject: [PATCH 17/64] fix: refuse vectors of the wrong dimension before
 changing a dynamic index

---
 include/svs/index/vamana/dynamic_index.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/svs/index/vamana/dynamic_index.h b/include/svs/index/vamana/dynamic_index.h
index 11e8e6f..839f16c 100644
--- a/include/svs/index/vamana/dynamic_index.h
+++ b/include/svs/index/vamana/dynamic_index.h
@@ -551,6 +551,16 @@ class MutableVamanaIndex {
                 num_ids
             );
         }
+        if (points.dimensions() != dimensions()) {
+            throw ANNEXCEPTION(
+                "Points have dimensions {} but index is {}!",
+                points.dimensions(),
+                dimensions()
+            );
+        }
+        if (num_points == 0) {
+            return {};
+        }
 
         // Gather all empty slots.
         std::vector<size_t> slots{};
-- 
2.43.0


From ad3adbd938a36571216398f02e59263eee4f6fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:28 +0000
Subject: [PATCH 18/64] fix: refuse repeated ids in deletion requests

---
 include/svs/core/translation.h           | 6 ++++++
 include/svs/index/vamana/dynamic_index.h | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/include/svs/core/translation.h b/include/svs/core/translation.h
index c1c7efb..a70789c 100644
--- a/include/svs/core/translation.h
+++ b/include/svs/core/translation.h
@@ -221,6 +221,9 @@ class IDTranslator {
     void delete_internal(const Internal& internal_ids, bool check = true) {
         // First pass - ensure that all IDs to remove actually exist.
         if (check) {
+            if (!lib::all_unique(internal_ids.begin(), internal_ids.end())) {
+                throw ANNEXCEPTION("Internal IDs contain repeat elements!");
+            }
             check_internal_exist(internal_ids.begin(), internal_ids.end());
         }
 
@@ -247,6 +250,9 @@ class IDTranslator {
     void delete_external(const External& external_ids, bool check = true) {
         // First pass - ensure that all IDs to remove actually exist.
         if (check) {
+            if (!lib::all_unique(external_ids.begin(), external_ids.end())) {
+                throw ANNEXCEPTION("External IDs contain repeat elements!");
+            }
             check_external_exist(external_ids.begin(), external_ids.end());
         }
 
diff --git a/include/svs/index/vamana/dynamic_index.h b/include/svs/index/vamana/dynamic_index.h
index 839f16c..f76e799 100644
--- a/include/svs/index/vamana/dynamic_index.h
+++ b/include/svs/index/vamana/dynamic_index.h
@@ -649,6 +649,9 @@ class MutableVamanaIndex {
     ///   graph.
     ///
     template <typename T> void delete_entries(const T& ids) {
+        if (!lib::all_unique(ids.begin(), ids.end())) {
+            throw ANNEXCEPTION("External IDs contain repeat elements!");
+        }
         translator_.check_external_exist(ids.begin(), ids.end());
         for (auto i : ids) {
             delete_entry(translator_.get_internal(i));
-- 
2.43.0


From e623e4f16a0b592a9bf853a5c791ffea2a3cca37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:28 +0000
Subject: [PATCH 19/64] fix: keep deleted but not yet consolidated entries when
 compacting

---
 include/svs/index/vamana/dynamic_index.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/svs/index/vamana/dynamic_index.h b/include/svs/index/vamana/dynamic_index.h
index f76e799..20464a7 100644
--- a/include/svs/index/vamana/dynamic_index.h
+++ b/include/svs/index/vamana/dynamic_index.h
@@ -681,7 +681,7 @@ class MutableVamanaIndex {
         auto indices = std::vector<Idx>();
         indices.reserve(size());
         for (size_t i = 0, imax = status_.size(); i < imax; ++i) {
-            if (!is_deleted(i)) {
+            if (status_[i] != SlotMetadata::Empty) {
                 indices.push_back(i);
             }
         }
-- 
2.43.0


From 214ec7f181c67830109aaa8e72358c932c0c70f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:28 +0000
Subject: [PATCH 20/64] fix: do not truncate alpha in DynamicVamana::set_alpha

---
 include/svs/orchestrators/dynamic_vamana.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/svs/orchestrators/dynamic_vamana.h b/include/svs/orchestrators/dynamic_vamana.h
index daba2a5..f69d625 100644
--- a/include/svs/orchestrators/dynamic_vamana.h
+++ b/include/svs/orchestrators/dynamic_vamana.h
@@ -156,7 +156,7 @@ class DynamicVamana : public manager::IndexManager<DynamicVamanaInterface> {
 
     // Accessors
     float get_alpha() const { return impl_->get_alpha(); }
-    void set_alpha(size_t alpha) { impl_->set_alpha(alpha); }
+    void set_alpha(float alpha) { impl_->set_alpha(alpha); }
     size_t get_construction_window_size() const {
         return impl_->get_construction_window_size();
     }
-- 
2.43.0


From e0389cdf25724c0d5d29b1abc12c1a4b5e2d3fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:16 +0000
Subject: [PATCH 21/64] fix: keep dynamic indexes usable after all entries were
 deleted

---
 include/svs/index/vamana/dynamic_index.h | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/svs/index/vamana/dynamic_index.h b/include/svs/index/vamana/dynamic_index.h
index 20464a7..eedbabe 100644
--- a/include/svs/index/vamana/dynamic_index.h
+++ b/include/svs/index/vamana/dynamic_index.h
@@ -434,6 +434,17 @@ class MutableVamanaIndex {
     void search(
         QueryResultView<I> results, const Queries& queries, const search_parameters_type& sp
     ) {
+        // There is no entry point to start from in an empty index.
+        if (size() == 0) {
+            using Compare = decltype(distance::comparator(distance_));
+            for (size_t i = 0, imax = queries.size(); i < imax; ++i) {
+                for (size_t j = 0, jmax = results.n_neighbors(); j < jmax; ++j) {
+                    results.set(type_traits::sentinel_v<Neighbor<I>, Compare>, i, j);
+                }
+            }
+            return;
+        }
+
         threads::run(
             threadpool_,
             threads::StaticPartition{queries.size()},
@@ -600,6 +611,11 @@ class MutableVamanaIndex {
         // to throw an exception.
         translator_.insert(external_ids, slots);
 
+        // If all previous entries are gone, then so is the entry point.
+        if (status_.at(entry_point()) == SlotMetadata::Empty) {
+            entry_point_[0] = slots.front();
+        }
+
         // Copy the given points into the data and clear the adjacency lists for the graph.
         copy_points(points, slots);
         clear_lists(slots);
@@ -789,8 +805,9 @@ class MutableVamanaIndex {
         status_.resize(max_index);
 
         // Update entry points.
+        // If nothing is left, the next insertion provides the new entry point.
         for (auto& ep : entry_point_) {
-            ep = old_to_new_id_map.at(ep);
+            ep = max_index == 0 ? 0 : old_to_new_id_map.at(ep);
         }
     }
 
@@ -838,7 +855,8 @@ class MutableVamanaIndex {
         // If so - we need to pick a new one.
         assert(entry_point_.size() == 1);
         auto entry_point = entry_point_[0];
-        if (status_.at(entry_point) == SlotMetadata::Deleted) {
+        // When nothing is left, the next insertion provides the new entry point.
+        if (size() != 0 && status_.at(entry_point) == SlotMetadata::Deleted) {
             auto logger = svs::logging::get();
             svs::logging::debug(logger, "Replacing entry point.");
             auto new_entry_point =
-- 
2.43.0


From 08090cdb47b114592fc17da4bbb1e5c567102232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:28 +0000
Subject: [PATCH 22/64] fix: repair exhaustive search over dynamic indexes

---
 include/svs/index/vamana/dynamic_index.h | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/svs/index/vamana/dynamic_index.h b/include/svs/index/vamana/dynamic_index.h
index eedbabe..3e9a3c8 100644
--- a/include/svs/index/vamana/dynamic_index.h
+++ b/include/svs/index/vamana/dynamic_index.h
@@ -27,6 +27,7 @@
 #include "svs/core/query_result.h"
 #include "svs/core/recall.h"
 #include "svs/core/translation.h"
+#include "svs/index/flat/flat.h"
 #include "svs/index/vamana/consolidate.h"
 #include "svs/index/vamana/dynamic_search_buffer.h"
 #include "svs/index/vamana/greedy_search.h"
@@ -494,10 +495,20 @@ class MutableVamanaIndex {
         size_t num_neighbors,
         QueryResultView<I> result
     ) {
-        auto temp_index = temporary_flat_index(data_, distance_, threadpool_);
-        temp_index.search(queries, num_neighbors, result, [&](size_t i) {
-            return getindex(status_, i) == SlotMetadata::Valid;
-        });
+        if (num_neighbors != result.n_neighbors()) {
+            throw ANNEXCEPTION(
+                "Requested {} neighbors but the result has room for {}!",
+                num_neighbors,
+                result.n_neighbors()
+            );
+        }
+        auto temp_index = flat::temporary_flat_index(data_, distance_, threadpool_);
+        temp_index.search(
+            result,
+            queries,
+            temp_index.get_search_parameters(),
+            [&](size_t i) { return getindex(status_, i) == SlotMetadata::Valid; }
+        );
 
         // After the search procedure, the indices in `results` are internal.
         // Perform one more pass to convert these to external ids.
-- 
2.43.0


From edc878cf65924a5704ead8c3c0d95ef7c3c62067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:56 +0000
Subject: [PATCH 23/64] verif: guarded hook for small default blocks
 (SVS_VERIF_HOOKS)

---
 include/svs/core/data/simple.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/svs/core/data/simple.h b/include/svs/core/data/simple.h
index 3ec4612..1cd3b94 100644
--- a/include/svs/core/data/simple.h
+++ b/include/svs/core/data/simple.h
@@ -534,7 +534,12 @@ bool operator==(const SimpleData<T1, E1, A1>& x, const SimpleData<T2, E2, A2>& y
 
 struct BlockingParameters {
   public:
+#if defined(SVS_VERIF_HOOKS)
+    // Verification hook: small blocks, so that small collections span several of them.
+    static constexpr lib::PowerOfTwo default_blocksize_bytes{13};
+#else
     static constexpr lib::PowerOfTwo default_blocksize_bytes{30};
+#endif
 
     friend bool operator==(const BlockingParameters&, const BlockingParameters&) = default;
 
-- 
2.43.0


From ab84ad9a79194d50a33f5c064be06e70e638609d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:15 +0000
Subject: [PATCH 24/64] fix: let HugepageAllocator serve empty allocations

---
 include/svs/core/allocator.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/svs/core/allocator.h b/include/svs/core/allocator.h
index d97dbbe..4954142 100644
--- a/include/svs/core/allocator.h
+++ b/include/svs/core/allocator.h
@@ -33,6 +33,7 @@
 
 #include "tsl/robin_map.h"
 
+#include <algorithm>
 #include <array>
 #include <fcntl.h>
 #include <filesystem>
@@ -208,9 +209,10 @@ template <typename T> class HugepageAllocator {
     }
 
     [[nodiscard]] T* allocate(size_t n) {
-        return static_cast<T*>(
-            detail::GenericHugepageAllocator().allocate(sizeof(T) * n, force_)
-        );
+        // Empty containers are legal, but a memory map cannot be empty.
+        return static_cast<T*>(detail::GenericHugepageAllocator().allocate(
+            sizeof(T) * std::max(n, size_t(1)), force_
+        ));
     }
 
     void deallocate(void* ptr, size_t SVS_UNUSED(n)) {
-- 
2.43.0


From b14e0942bf1e189bc991f1b79f883d333bf8883d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:48 +0000
Subject: [PATCH 25/64] fix: let narrow detect values outside the range of the
 integer type

---
 include/svs/lib/narrow.h | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/include/svs/lib/narrow.h b/include/svs/lib/narrow.h
index e0b81e0..d0a91d3 100644
--- a/include/svs/lib/narrow.h
+++ b/include/svs/lib/narrow.h
@@ -36,8 +36,11 @@
 
 #pragma once
 
+#include <concepts>
 #include <exception> // for std::exception
 #include <iostream>
+#include <limits>
+#include <type_traits>
 
 #include "svs/lib/preprocessor.h"
 #include "svs/lib/type_traits.h"
@@ -55,6 +58,17 @@ template <typename T, typename U> constexpr T narrow_cast(U&& u) noexcept {
 }
 
 namespace detail {
+// Return whether the truncation of the floating-point value `u` fits in the integer type
+// `T`. Converting a value that doesn't is undefined behavior.
+//
+// Both bounds are powers of two (or zero) and thus exactly representable.
+template <std::integral T, typename U> constexpr bool truncates_into(U u) {
+    constexpr auto lower = static_cast<double>(std::numeric_limits<T>::min());
+    constexpr auto upper = 2.0 * static_cast<double>(std::numeric_limits<T>::max() / 2 + 1);
+    const auto x = static_cast<double>(u);
+    return lower <= x && x < upper;
+}
+
 // Use the `SVS_CLANG_NOINLINE` attribute to avoid inlining this function if building
 // with clang in a non-debug context.
 //
@@ -70,7 +84,17 @@ template <class T, class U>
 SVS_CLANG_NOINLINE constexpr T narrow_impl(U u) noexcept(false) {
     static_assert(!std::is_same_v<T, std::remove_cv_t<U>>);
     constexpr bool is_different_signedness = (svs::is_signed_v<T> != svs::is_signed_v<U>);
+    if constexpr (std::is_integral_v<T> && svs::is_arithmetic_v<U> && !std::is_integral_v<U>) {
+        if (!truncates_into<T>(u)) {
+            throw narrowing_error{};
+        }
+    }
     const T t = narrow_cast<T>(u);
+    if constexpr (std::is_integral_v<U> && !std::is_integral_v<T>) {
+        if (!truncates_into<U>(t)) {
+            throw narrowing_error{};
+        }
+    }
 
     if (static_cast<U>(t) != u || (is_different_signedness && ((t < T{}) != (u < U{})))) {
         throw narrowing_error{};
-- 
2.43.0


From 2ffba391e3ba37944de7133573eb0d28a1943115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:48 +0000
Subject: [PATCH 26/64] fix: refuse trailing characters when parsing integers
 and versions

---
 include/svs/lib/version.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/svs/lib/version.h b/include/svs/lib/version.h
index 5da723f..e233648 100644
--- a/include/svs/lib/version.h
+++ b/include/svs/lib/version.h
@@ -52,7 +52,7 @@ namespace svs::lib {
 template <std::integral T> [[nodiscard]] T parse_int(std::string_view view) {
     auto value = T{0};
     auto result = std::from_chars(view.begin(), view.end(), value);
-    if (result.ec != std::errc()) {
+    if (result.ec != std::errc() || result.ptr != view.end()) {
         throw ANNEXCEPTION("Something went wrong with number parsing!");
     }
     return value;
-- 
2.43.0


From 0de52c5833c73a78413f3f02ca33b00ec4b775fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:48 +0000
Subject: [PATCH 27/64] fix: compute bit masks that include the highest bit

---
 include/svs/lib/misc.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/svs/lib/misc.h b/include/svs/lib/misc.h
index a1787c3..ffe3cf0 100644
--- a/include/svs/lib/misc.h
+++ b/include/svs/lib/misc.h
@@ -531,7 +531,10 @@ template <std::integral T> constexpr T bitmask(T lo, T hi) {
     assert(lo < T(8 * sizeof(T)));
     assert(hi < T(8 * sizeof(T)));
 
-    T one{1};
-    return static_cast<T>(one << (hi + one)) - static_cast<T>(one << lo);
+    // Shift by less than the number of bits, also when `hi` is the highest one.
+    using U = std::make_unsigned_t<T>;
+    constexpr auto ones = std::numeric_limits<U>::max();
+    constexpr auto last = std::numeric_limits<U>::digits - 1;
+    return static_cast<T>(static_cast<U>(ones << lo) & static_cast<U>(ones >> (last - hi)));
 }
 } // namespace svs::lib
-- 
2.43.0


From 4da6afc901033e947ee95399affd294b4d7b8642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:09 +0000
Subject: [PATCH 28/64] fix: correct the software half-precision conversions

---
 include/svs/lib/float16.h | 54 +++++++++++++++++++++++++++------------
 1 file changed, 37 insertions(+), 17 deletions(-)

diff --git a/include/svs/lib/float16.h b/include/svs/lib/float16.h
index 31bfd9a..8d26ccb 100644
--- a/include/svs/lib/float16.h
+++ b/include/svs/lib/float16.h
@@ -43,28 +43,48 @@ inline float bitcast_uint32_to_float(const uint32_t x) {
     return f;
 }
 
-// reference:
-// https://stackoverflow.com/questions/1659440/32-bit-to-16-bit-floating-point-conversion
 inline float float16_to_float_untyped_slow(const uint16_t x) {
-    // without norm/denorm (it makes code slow)
+    const uint32_t sign = static_cast<uint32_t>(x & 0x8000) << 16;
     const uint32_t e = (x & 0x7C00) >> 10; // exponent
-    const uint32_t m = (x & 0x03FF) << 13; // mantissa
-    return bitcast_uint32_to_float(
-        (x & 0x8000) << 16 | static_cast<uint32_t>(e != 0) * ((e + 112) << 23 | m)
-    );
+    const uint32_t m = x & 0x03FF;         // mantissa
+    if (e == 0) {
+        // Zeros and denormals - multiples of 2^-24.
+        const float magnitude = static_cast<float>(m) * 0x1p-24f;
+        return bitcast_uint32_to_float(sign | bitcast_float_to_uint32(magnitude));
+    }
+    // The maximum exponent is reserved for infinities and NaNs.
+    const uint32_t exponent = (e == 31) ? 255 : (e + 112);
+    return bitcast_uint32_to_float(sign | (exponent << 23) | (m << 13));
 }
 
 inline uint16_t float_to_float16_untyped_slow(const float x) {
-    // round-to-nearest-even: add last bit after truncated mantissa
-    const uint32_t b = bitcast_float_to_uint32(x) + 0x00001000;
-    const uint32_t e = (b & 0x7F800000) >> 23; // exponent
-    const uint32_t m = b & 0x007FFFFF;         // mantissa
-    return (b & 0x80000000) >> 16 |
-           static_cast<uint32_t>(e > 112) * ((((e - 112) << 10) & 0x7C00) | m >> 13) |
-           static_cast<uint32_t>((e < 113) && (e > 101)) *
-               ((((0x007FF000 + m) >> (125 - e)) + 1) >> 1) |
-           static_cast<uint32_t>(e > 143) *
-               0x7FFF; // sign : normalized : denormalized : saturate
+    const uint32_t b = bitcast_float_to_uint32(x);
+    const uint16_t sign = (b & 0x80000000) >> 16;
+    const uint32_t magnitude = b & 0x7FFFFFFF;
+    if (magnitude > 0x7F800000) {
+        // Preserve the upper part of the NaN payload and make it quiet.
+        return sign | 0x7E00 | ((magnitude >> 13) & 0x03FF);
+    }
+    if (magnitude >= 0x477FF000) {
+        // Too large after rounding (65520 and up).
+        return sign | 0x7C00;
+    }
+    // Round the last `discard` bits of `value` away: to nearest, ties to even.
+    auto round = [](uint32_t value, uint32_t discard) {
+        const uint32_t half = uint32_t{1} << (discard - 1);
+        const uint32_t odd = (value >> discard) & 1;
+        return static_cast<uint16_t>((value + (half - 1) + odd) >> discard);
+    };
+    const uint32_t e = magnitude >> 23; // exponent
+    if (e > 112) {
+        // Normal numbers. A carry out of the mantissa correctly increments the exponent.
+        return sign | round(magnitude - (uint32_t{112} << 23), 13);
+    }
+    if (e < 102) {
+        // At most half of the smallest denormal.
+        return sign;
+    }
+    return sign | round((magnitude & 0x007FFFFF) | 0x00800000, 126 - e);
 }
 
 // If the processor is new enough, we can use hardware intrinsics to perform the conversion
-- 
2.43.0


From 1ae4a298fa6e90b232eb7a3986fbfe5c137455b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:20 +0000
Subject: [PATCH 29/64] fix: handle exceptions of any type in thread pools

---
 include/svs/lib/threads/threadpool.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/svs/lib/threads/threadpool.h b/include/svs/lib/threads/threadpool.h
index 05399b8..f532b88 100644
--- a/include/svs/lib/threads/threadpool.h
+++ b/include/svs/lib/threads/threadpool.h
@@ -162,7 +162,9 @@ template <typename Builder> class NativeThreadPoolBase {
         // Run on the main function.
         try {
             f(0);
-        } catch (const std::exception& error) { manage_exception_during_run(error.what()); }
+        } catch (const std::exception& error) {
+            manage_exception_during_run(error.what());
+        } catch (...) { manage_exception_during_run("Unknown exception"); }
 
         // Wait until all threads are done.
         // If any thread fails, then we're throwing.
@@ -192,6 +194,8 @@ template <typename Builder> class NativeThreadPoolBase {
                     thread.unsafe_get_exception();
                 } catch (const std::exception& error) {
                     fmt::format_to(inserter, "Thread {}: {}\n", i + 1, error.what());
+                } catch (...) {
+                    fmt::format_to(inserter, "Thread {}: Unknown exception\n", i + 1);
                 }
                 // Restart the thread.
                 threads_[i].shutdown();
-- 
2.43.0


From 63ccac572f1e2aa043fc9ab501e100451df4046f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:20 +0000
Subject: [PATCH 30/64] fix: construct thread pools for zero threads with one
 thread

---
 include/svs/lib/threads/threadpool.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/svs/lib/threads/threadpool.h b/include/svs/lib/threads/threadpool.h
index f532b88..05b5851 100644
--- a/include/svs/lib/threads/threadpool.h
+++ b/include/svs/lib/threads/threadpool.h
@@ -134,8 +134,8 @@ template <typename Builder> class NativeThreadPoolBase {
     template <typename... Args>
     explicit NativeThreadPoolBase(uint64_t num_threads = 1, Args&&... args)
         : builder_{std::forward<Args>(args)...} {
-        for (size_t tid = 0; tid < num_threads - 1; ++tid) {
-            threads_.push_back(builder_.build(tid + 1));
+        for (size_t tid = 1; tid < num_threads; ++tid) {
+            threads_.push_back(builder_.build(tid));
         }
     }
 
-- 
2.43.0


From aa953c6b24abd7adf8e9b9a7e9ead1ed10cc2ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:17 +0000
Subject: [PATCH 31/64] fix: never report unseen ids as visited

---
 include/svs/index/vamana/filter.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/svs/index/vamana/filter.h b/include/svs/index/vamana/filter.h
index c947072..5d46efd 100644
--- a/include/svs/index/vamana/filter.h
+++ b/include/svs/index/vamana/filter.h
@@ -80,6 +80,10 @@ template <size_t N> class VisitedFilter<uint32_t, N> {
 
     /// @brief Return ``true`` if the stored value original cam from the provided key.
     constexpr static bool check(integer_type key, value_type value) {
+        // An empty slot holds no key (even if the tag of `key` equals the sentinel).
+        if (value == sentinel) {
+            return false;
+        }
         if constexpr (N >= 16) {
             // Make sure the upper-bits match.
             return (key >> 16) == value;
-- 
2.43.0


From ef06ec9f4feffc98054195a1f40c15d722b19242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:17 +0000
Subject: [PATCH 32/64] fix: hold more than 65535 candidates in dynamic search
 buffers

---
 include/svs/index/vamana/dynamic_search_buffer.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/svs/index/vamana/dynamic_search_buffer.h b/include/svs/index/vamana/dynamic_search_buffer.h
index 9b179bb..26136c3 100644
--- a/include/svs/index/vamana/dynamic_search_buffer.h
+++ b/include/svs/index/vamana/dynamic_search_buffer.h
@@ -75,9 +75,10 @@ template <typename Idx, typename Cmp = std::less<>> class MutableBuffer {
     // Equivalent to the `search_buffer_capacity_` in the traditional search buffer.
     uint16_t valid_capacity_ = 0;
     // Index of the best unvisited candidate.
-    uint16_t best_unvisited_ = 0;
+    // N.B.: The number of invalid candidates is not limited by the capacity.
+    size_t best_unvisited_ = 0;
     // One past the "target_valid_"th entry.
-    uint16_t roi_end_ = 0;
+    size_t roi_end_ = 0;
     // number of valid neighbors.
     uint16_t valid_ = 0;
     // A buffer of candidates.
@@ -426,7 +427,7 @@ template <typename Idx, typename Cmp = std::less<>> class MutableBuffer {
         size_t i = pos - start;
         valid_ += static_cast<size_t>(neighbor.valid());
         unsafe_insert(neighbor, pos, i);
-        best_unvisited_ = std::min(best_unvisited_, lib::narrow_cast<uint16_t>(i));
+        best_unvisited_ = std::min(best_unvisited_, i);
         return i;
     }
 
-- 
2.43.0


From 8aae24bc195eb6983e9a8de3c1c5999bf968006f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:55 +0000
Subject: [PATCH 33/64] fix: refuse unrepresentable ids before changing the id
 translation

---
 include/svs/core/translation.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/svs/core/translation.h b/include/svs/core/translation.h
index a70789c..cb06562 100644
--- a/include/svs/core/translation.h
+++ b/include/svs/core/translation.h
@@ -135,8 +135,11 @@ class IDTranslator {
 
     template <typename Ext, typename Int>
     void insert_translation(Ext external_id, Int internal_id) {
-        external_to_internal_[external_id] = lib::narrow<internal_id_type>(internal_id);
-        internal_to_external_[internal_id] = lib::narrow<external_id_type>(external_id);
+        // Convert before modifying either table so a failure leaves them consistent.
+        const auto external = lib::narrow<external_id_type>(external_id);
+        const auto internal = lib::narrow<internal_id_type>(internal_id);
+        external_to_internal_[external] = internal;
+        internal_to_external_[internal] = external;
     }
 
     ///
@@ -383,7 +386,9 @@ class IDTranslator {
         Modifier modify = lib::identity()
     ) const {
         for (auto i = begin; i != end; ++i) {
-            if (modify(map.contains(*i))) {
+            // Refuse ids that do not fit instead of looking up some other id.
+            const auto id = lib::narrow<typename Map::key_type>(*i);
+            if (modify(map.contains(id))) {
                 throw ANNEXCEPTION("{} ID {}!", message, *i);
             }
         }
-- 
2.43.0


From c732fb220b8541ec1ec56ec254886076d5d53e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:40 +0000
Subject: [PATCH 34/64] fix: compare graphs by vertex count and whole adjacency
 lists

---
 include/svs/concepts/graph.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/svs/concepts/graph.h b/include/svs/concepts/graph.h
index a139ce3..bcc7a1c 100644
--- a/include/svs/concepts/graph.h
+++ b/include/svs/concepts/graph.h
@@ -190,14 +190,14 @@ concept MemoryGraph = requires(T& g, const T& const_g) {
 ///
 template <ImmutableMemoryGraph Graph1, ImmutableMemoryGraph Graph2>
 bool graphs_equal(const Graph1& x, const Graph2& y) {
-    if (x.num_nodes() != y.num_nodes()) {
+    if (x.n_nodes() != y.n_nodes()) {
         return false;
     }
 
-    for (size_t i = 0, imax = x.num_nodes(); i < imax; ++i) {
+    for (size_t i = 0, imax = x.n_nodes(); i < imax; ++i) {
         const auto& xa = x.get_node(i);
         const auto& ya = y.get_node(i);
-        if (!std::equal(xa.begin(), xa.end(), ya.begin())) {
+        if (!std::equal(xa.begin(), xa.end(), ya.begin(), ya.end())) {
             return false;
         }
     }
-- 
2.43.0


From 6365610ffa50b9c25133b004a144eea0926bb95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:40 +0000
Subject: [PATCH 35/64] fix: let empty index ranges be empty in contains and
 data views

---
 include/svs/core/data/view.h    | 4 ++++
 include/svs/lib/threads/types.h | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/svs/core/data/view.h b/include/svs/core/data/view.h
index b682c36..72dac2b 100644
--- a/include/svs/core/data/view.h
+++ b/include/svs/core/data/view.h
@@ -26,6 +26,10 @@ namespace detail {
 
 template <typename I>
 void check_indices(const threads::UnitRange<I>& indices, size_t size) {
+    // An empty range selects nothing and has no valid last element to check.
+    if (indices.size() == 0) {
+        return;
+    }
     if (indices.front() < 0 || lib::narrow<size_t>(indices.back()) >= size) {
         throw ANNEXCEPTION(
             "Invalid indices [{}, {}) for a range of size {}.",
diff --git a/include/svs/lib/threads/types.h b/include/svs/lib/threads/types.h
index a743558..2a9c24c 100644
--- a/include/svs/lib/threads/types.h
+++ b/include/svs/lib/threads/types.h
@@ -258,9 +258,9 @@ class UnitRange {
     }
 
     ///
-    /// Return `true` if the value `i` is in `[front(), back()]`. Otherwise, return `false`.
+    /// Return `true` if the value `i` is in `[start, stop)`. Otherwise, return `false`.
     ///
-    bool contains(const T& i) const { return front() <= i && i <= back(); }
+    bool contains(const T& i) const { return start_ <= i && i < stop_; }
 
     ///
     /// Return a unit range over the valid indices of the current range.
-- 
2.43.0


From 761df485cd143b0e6090b256a2619eb7ff995bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:00 +0000
Subject: [PATCH 36/64] fix: refuse blocked datasets with zero or mismatching
 dimensions

---
 include/svs/core/data/simple.h | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/svs/core/data/simple.h b/include/svs/core/data/simple.h
index 1cd3b94..d2fc174 100644
--- a/include/svs/core/data/simple.h
+++ b/include/svs/core/data/simple.h
@@ -596,9 +596,7 @@ class SimpleData<T, Extent, Blocked<Alloc>> {
 
     ///// Constructors
     SimpleData(size_t n_elements, size_t n_dimensions, const Blocked<Alloc>& alloc)
-        : blocksize_{lib::prevpow2(
-              alloc.parameters().blocksize_bytes.value() / (sizeof(T) * n_dimensions)
-          )}
+        : blocksize_{compute_blocksize(n_dimensions, alloc)}
         , blocks_{}
         , dimensions_{n_dimensions}
         , size_{n_elements}
@@ -809,6 +807,18 @@ class SimpleData<T, Extent, Blocked<Alloc>> {
     }
 
   private:
+    static lib::PowerOfTwo
+    compute_blocksize(size_t n_dimensions, const Blocked<Alloc>& alloc) {
+        // Throws if a static extent does not match.
+        lib::forward_extent<Extent>(n_dimensions);
+        if (n_dimensions == 0) {
+            throw ANNEXCEPTION("Blocked datasets must have at least one dimension!");
+        }
+        return lib::prevpow2(
+            alloc.parameters().blocksize_bytes.value() / (sizeof(T) * n_dimensions)
+        );
+    }
+
     // The blocksize in terms of number of vectors.
     lib::PowerOfTwo blocksize_;
     std::vector<array_type> blocks_;
-- 
2.43.0


From 0e3bde05b5370309e21aad0d3c32ba0a0579d5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:00 +0000
Subject: [PATCH 37/64] fix: refuse to compact data with an empty scratch
 buffer

---
 include/svs/core/compact.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/svs/core/compact.h b/include/svs/core/compact.h
index 1496b84..08b2651 100644
--- a/include/svs/core/compact.h
+++ b/include/svs/core/compact.h
@@ -48,6 +48,9 @@ void compact_data(
     size_t batchsize = buffer.size();
     size_t start = 0;
     size_t end = new_to_old.size();
+    if (batchsize == 0 && end != 0) {
+        throw ANNEXCEPTION("Cannot compact data with a batch size of zero!");
+    }
     while (start < end) {
         size_t stop = std::min(start + batchsize, end);
         auto batch_to_new = threads::UnitRange{start, stop};
-- 
2.43.0


From fa972b5d641a95acc035b3ddd2bea22e106e3a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:00 +0000
Subject: [PATCH 38/64] fix: clamp long adjacency lists before converting their
 length

---
 include/svs/core/graph/graph.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/svs/core/graph/graph.h b/include/svs/core/graph/graph.h
index d663224..c6155a6 100644
--- a/include/svs/core/graph/graph.h
+++ b/include/svs/core/graph/graph.h
@@ -178,8 +178,9 @@ template <std::unsigned_integral Idx, data::MemoryDataset Data> class SimpleGrap
         // handle the case where the caller passes in too many neighbors.
         //
         // In this case, we take the first `max_degree_` number of elements.
-        Idx elements_to_copy =
-            std::min(max_degree_, lib::narrow_cast<Idx>(new_neighbors.size()));
+        Idx elements_to_copy = lib::narrow_cast<Idx>(
+            std::min<size_t>(max_degree_, new_neighbors.size())
+        );
 
         std::span<const Idx> adjusted_neighbors = new_neighbors.first(elements_to_copy);
         value_type adjacency_list = raw_data.subspan(1, elements_to_copy);
-- 
2.43.0


From b497af37d0cf17347c016b6d8dfef88344b5afd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:00 +0000
Subject: [PATCH 39/64] fix: copy empty and moved-from arrays without reading a
 null pointer

---
 include/svs/lib/array.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/svs/lib/array.h b/include/svs/lib/array.h
index 840abcb..0f14d1b 100644
--- a/include/svs/lib/array.h
+++ b/include/svs/lib/array.h
@@ -344,6 +344,9 @@ template <typename T, typename Dims, typename Alloc = lib::Allocator<T>> class D
         , dims_{other.dims_}
         , allocator_{
               atraits::select_on_container_copy_construction(other.get_allocator())} {
+        if (other.pointer_ == nullptr) {
+            return;
+        }
         size_t sz = other.size();
         pointer_ = atraits::allocate(allocator_, sz);
         assign(other.begin(), other.end());
@@ -365,6 +368,9 @@ template <typename T, typename Dims, typename Alloc = lib::Allocator<T>> class D
             }
             // Copy over the dimensions.
             dims_ = other.dims_;
+            if (other.pointer_ == nullptr) {
+                return *this;
+            }
             size_t sz = size();
             // Allocate and copy contents.
             pointer_ = atraits::allocate(allocator_, sz);
@@ -490,6 +496,9 @@ template <typename T, typename Dims, typename Alloc = lib::Allocator<T>> class D
         }
 
         dims_ = other.dims_;
+        if (other.pointer_ == nullptr) {
+            return;
+        }
         size_t sz = size();
         pointer_ = atraits::allocate(allocator_, sz);
         assign(std::move_iterator(other.begin()), std::move_iterator(other.end()));
-- 
2.43.0


From a5dd202911ef4cab8ad3cdaa4cfcec772decda02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:10 +0000
Subject: [PATCH 40/64] fix: initialise the size of default constructed
 datasets

---
 include/svs/core/data/simple.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/svs/core/data/simple.h b/include/svs/core/data/simple.h
index d2fc174..6f1d646 100644
--- a/include/svs/core/data/simple.h
+++ b/include/svs/core/data/simple.h
@@ -509,7 +509,7 @@ class SimpleData {
 
     ///// Members
     array_type data_;
-    size_t size_;
+    size_t size_ = 0;
 };
 
 template <typename T1, size_t E1, typename A1, typename T2, size_t E2, typename A2>
-- 
2.43.0


From a1611aa61b554c6c93c5cdeb3dee576209805afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:20 +0000
Subject: [PATCH 41/64] fix: fail when binary data ends before everything was
 read

---
 include/svs/core/io/native.h |  5 +++++
 include/svs/lib/readwrite.h  | 13 +++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/include/svs/core/io/native.h b/include/svs/core/io/native.h
index 230593b..19e4ddc 100644
--- a/include/svs/core/io/native.h
+++ b/include/svs/core/io/native.h
@@ -665,6 +665,11 @@ auto visit_file_type(FileSchema schema, const std::filesystem::path& path, F&& f
 /// Throws an exception if ``path`` cannot be opened for reading.
 ///
 inline std::optional<lib::UUID> get_uuid(const std::filesystem::path& path) {
+    // Files that cannot even hold a magic number are not ours.
+    if (std::filesystem::file_size(path) < sizeof(uint64_t)) {
+        return std::optional<lib::UUID>();
+    }
+
     // Step 1: Get the schema for the provided file.
     auto schema = classify(path);
     if (!schema) {
diff --git a/include/svs/lib/readwrite.h b/include/svs/lib/readwrite.h
index 320535c..e589b3a 100644
--- a/include/svs/lib/readwrite.h
+++ b/include/svs/lib/readwrite.h
@@ -11,6 +11,8 @@
 
 #pragma once
 
+#include "svs/lib/exception.h"
+
 #include <span>
 #include <type_traits>
 #include <vector>
@@ -22,12 +24,22 @@ namespace lib {
 ///// Reading Binary Objects
 /////
 
+namespace detail {
+// Streams only record that they ran out of data or failed. Turn that into an exception.
+template <typename Stream> void check_read(const Stream& stream, size_t bytes) {
+    if (!stream) {
+        throw ANNEXCEPTION("Failed to read {} bytes from a binary stream!", bytes);
+    }
+}
+} // namespace detail
+
 // Partial specialization entry points.
 template <typename Stream, typename T> struct BinaryReader {
     static void call(Stream& stream, T& x) {
         static_assert(std::is_trivially_copyable_v<T>);
         using char_type = typename Stream::char_type;
         stream.read(reinterpret_cast<char_type*>(&x), sizeof(T));
+        detail::check_read(stream, sizeof(T));
     }
 };
 
@@ -37,6 +49,7 @@ struct BinaryReader<Stream, std::vector<T, Alloc>> {
         static_assert(std::is_trivially_copyable_v<T>);
         using char_type = typename Stream::char_type;
         stream.read(reinterpret_cast<char_type*>(x.data()), sizeof(T) * x.size());
+        detail::check_read(stream, sizeof(T) * x.size());
     }
 };
 
-- 
2.43.0


From 8d8f54cc984ff8811a495b10abf37963d2a8b036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:20 +0000
Subject: [PATCH 42/64] fix: reload empty id translations and refuse ambiguous
 ones

---
 include/svs/core/translation.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/svs/core/translation.h b/include/svs/core/translation.h
index cb06562..36b03ea 100644
--- a/include/svs/core/translation.h
+++ b/include/svs/core/translation.h
@@ -366,11 +366,21 @@ class IDTranslator {
         // the points.
         auto num_points = lib::load_at<size_t>(table, "num_points");
         auto translator = IDTranslator{};
+        // The file is empty if there are no translations.
+        if (num_points == 0) {
+            return translator;
+        }
         auto resolved = table.resolve_at("filename");
         auto stream = lib::open_read(resolved);
         for (size_t i = 0; i < num_points; ++i) {
             auto external_id = lib::read_binary<external_id_type>(stream);
             auto internal_id = lib::read_binary<internal_id_type>(stream);
+            if (translator.has_external(external_id) ||
+                translator.has_internal(internal_id)) {
+                throw ANNEXCEPTION(
+                    "Repeated translation ({}, {})!", external_id, internal_id
+                );
+            }
             translator.insert_translation(external_id, internal_id);
         }
         return translator;
-- 
2.43.0


From 47fcadd5c8d648e52595381d085096f7671810cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:20 +0000
Subject: [PATCH 43/64] fix: check the length of every vector in vecs files

---
 include/svs/core/io/vecs.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/svs/core/io/vecs.h b/include/svs/core/io/vecs.h
index 85a13f3..2726bcf 100644
--- a/include/svs/core/io/vecs.h
+++ b/include/svs/core/io/vecs.h
@@ -165,7 +165,16 @@ template <typename T> class VecsReader {
         auto value_reader = lib::ValueReader<length_t>();
         auto vector_reader = lib::VectorReader<T>(ndims());
         return lib::heterogeneous_iterator(
-            [](auto&& /*unused*/, auto&& span) { return span; },
+            [dims = ndims()](length_t length, auto&& span) {
+                if (length != dims) {
+                    throw ANNEXCEPTION(
+                        "Found a vector of length {} in a Vecs file with dimensions {}!",
+                        length,
+                        dims
+                    );
+                }
+                return span;
+            },
             stream_,
             vectors_to_read(),
             value_reader,
-- 
2.43.0


From aff5ab44917cea5cd8f56cd8dd0a28f56dd43fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:20 +0000
Subject: [PATCH 44/64] fix: try larger element sizes when a vecs file cannot
 hold the current one

---
 include/svs/core/io/vecs.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/svs/core/io/vecs.h b/include/svs/core/io/vecs.h
index 2726bcf..07b9673 100644
--- a/include/svs/core/io/vecs.h
+++ b/include/svs/core/io/vecs.h
@@ -55,8 +55,11 @@ inline size_t deduce_element_size(std::ifstream& stream, size_t dims, size_t fil
     // and then, confirm that we get the same dimension for a few more vectors.
     for (size_t elsize : ALLOWED_ELEMENT_SIZES) {
         size_t offset = sizeof(length_t) + elsize * dims;
+        if (filesize % offset != 0) {
+            continue;
+        }
         if (is_last_vec(offset)) {
-            return offset == filesize ? elsize : 0;
+            return elsize;
         }
 
         if (dims == next_dims(offset)) {
-- 
2.43.0


From 1183e06ebf8d6bc73755650dfe5267190fbb6681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:20 +0000
Subject: [PATCH 45/64] fix: refuse empty and inconsistent headers of binary
 files

---
 include/svs/core/io/binary.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/svs/core/io/binary.h b/include/svs/core/io/binary.h
index d3ea7bd..5967989 100644
--- a/include/svs/core/io/binary.h
+++ b/include/svs/core/io/binary.h
@@ -11,6 +11,7 @@
 
 #pragma once
 
+#include <algorithm>
 #include <cassert>
 #include <cstddef>
 #include <filesystem>
@@ -51,12 +52,19 @@ get_dims(std::ifstream& stream, std::string_view source = {}, size_t elsize_hint
     size_t filesize_minus_header = filesize - sizeof(header);
     size_t n_vec_elements =
         lib::narrow<size_t>(header.num_vectors) * lib::narrow<size_t>(header.vector_dim);
-    size_t remainder = filesize_minus_header % n_vec_elements;
-    size_t deduced_elsize = filesize_minus_header / n_vec_elements;
+
+    // A file without elements has nothing to deduce an element size from.
+    if (n_vec_elements == 0 && filesize_minus_header == 0) {
+        return std::make_pair(header.num_vectors, header.vector_dim);
+    }
+
+    size_t divisor = std::max(n_vec_elements, size_t(1));
+    size_t remainder = filesize_minus_header % divisor;
+    size_t deduced_elsize = n_vec_elements == 0 ? 0 : filesize_minus_header / divisor;
 
     bool elsize_match = elsize_hint == 0 ? true : elsize_hint == deduced_elsize;
 
-    if (remainder != 0 || !elsize_match) {
+    if (remainder != 0 || deduced_elsize == 0 || !elsize_match) {
         throw ANNEXCEPTION(
             "Cannot read elements of size {} from Binary file {}.",
             elsize_hint == 0 ? deduced_elsize : elsize_hint,
-- 
2.43.0


From 631325f6538c0cd7ac469aa4bd930bb97035262f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:20 +0000
Subject: [PATCH 46/64] fix: load exactly the announced number of vectors

---
 include/svs/core/data/io.h | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/include/svs/core/data/io.h b/include/svs/core/data/io.h
index 54ee777..bc2cdb9 100644
--- a/include/svs/core/data/io.h
+++ b/include/svs/core/data/io.h
@@ -69,9 +69,15 @@ void populate_impl(
     auto reader = accessor.reader(data, file);
     size_t i = 0;
     for (auto v : reader) {
+        if (i == data.size()) {
+            throw ANNEXCEPTION("File contains more than {} vectors!", data.size());
+        }
         accessor.set(data, i, v);
         ++i;
     }
+    if (i != data.size()) {
+        throw ANNEXCEPTION("File contains {} vectors, expected {}!", i, data.size());
+    }
 }
 
 // Intercept the native file to perform dispatch on the actual file type.
@@ -137,8 +143,17 @@ void save_vecs(const Dataset& data, const std::filesystem::path& path) {
 // Generic dataset loading.
 template <typename File, typename WriteAccessor, lib::LazyInvocable<size_t, size_t> F>
 lib::lazy_result_t<F, size_t, size_t>
-load_impl(const File& file, WriteAccessor& accessor, const F& lazy) {
-    auto [vectors_to_read, ndims] = file.get_dims();
+load_impl(
+    const File& file, WriteAccessor& accessor, const F& lazy, size_t elsize_hint = 0
+) {
+    auto [vectors_to_read, ndims] = [&]() {
+        // Some formats need the element size to know how many vectors they hold.
+        if constexpr (requires { file.get_dims(elsize_hint); }) {
+            return file.get_dims(elsize_hint);
+        } else {
+            return file.get_dims();
+        }
+    }();
     auto data = lazy(vectors_to_read, ndims);
     populate(data, accessor, file);
     return data;
@@ -194,11 +209,12 @@ auto_load(const std::filesystem::path& filename, const F& construct) {
     if (sv.ends_with("svs")) {
         return load_dataset(io::NativeFile(filename), construct);
     }
+    auto accessor = DefaultWriteAccessor();
     if (sv.ends_with("vecs")) {
-        return load_dataset(io::vecs::VecsFile(filename), construct);
+        return load_impl(io::vecs::VecsFile(filename), accessor, construct, sizeof(T));
     }
     if (sv.ends_with("bin")) {
-        return load_dataset(io::binary::BinaryFile(filename), construct);
+        return load_impl(io::binary::BinaryFile(filename), accessor, construct, sizeof(T));
     }
     throw ANNEXCEPTION("Unknown file extension for input file: {}.", filename);
 }
-- 
2.43.0


From 3c3da2fe5008b92490a1f5d2a36454e21d0e02db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:20 +0000
Subject: [PATCH 47/64] fix: save datasets as vecs files

---
 include/svs/core/data/io.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/svs/core/data/io.h b/include/svs/core/data/io.h
index bc2cdb9..330874b 100644
--- a/include/svs/core/data/io.h
+++ b/include/svs/core/data/io.h
@@ -130,7 +130,7 @@ void save(const Dataset& data, const File& file, const lib::UUID& uuid = lib::Ze
 template <data::ImmutableMemoryDataset Dataset>
 void save_vecs(const Dataset& data, const std::filesystem::path& path) {
     auto file = vecs::VecsFile{path};
-    auto writer = file.writer(data.dimensionsions());
+    auto writer = file.writer<typename Dataset::element_type>(data.dimensions());
     for (size_t i = 0; i < data.size(); ++i) {
         writer << data.get_datum(i);
     }
-- 
2.43.0


From 48eac3b2e2ef69f25baa2b7e5a3a5515d824d119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:03 +0000
Subject: [PATCH 48/64] fix: check native file sizes against their header when
 reading

---
 include/svs/core/io/native.h | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/include/svs/core/io/native.h b/include/svs/core/io/native.h
index 19e4ddc..12360d4 100644
--- a/include/svs/core/io/native.h
+++ b/include/svs/core/io/native.h
@@ -163,6 +163,30 @@ template <typename T, typename Header> class HeaderMappedPtr {
     MMapPtr<T> ptr_;
 };
 
+///
+/// @brief Ensure a file holds exactly the vectors its header announces.
+///
+template <typename T>
+void check_file_size(
+    const std::filesystem::path& path, size_t num_vectors, size_t dims, size_t header_size
+) {
+    const size_t filesize = std::filesystem::file_size(path);
+    // Use 128-bit arithmetic: damaged headers can contain arbitrarily large numbers.
+    __extension__ using wide_t = unsigned __int128;
+    const auto expected =
+        wide_t{num_vectors} * wide_t{dims} * wide_t{sizeof(T)} + wide_t{header_size};
+    if (wide_t{filesize} != expected) {
+        throw ANNEXCEPTION(
+            "File {} of {} bytes cannot hold {} vectors with {} elements of size {}!",
+            path,
+            filesize,
+            num_vectors,
+            dims,
+            sizeof(T)
+        );
+    }
+}
+
 ///
 /// @brief A reader class that can read vectors from a native file containing a header.
 ///
@@ -279,6 +303,7 @@ class NativeFile {
     Reader<T> reader(lib::Type<T> SVS_UNUSED(type), size_t max_lines = Dynamic) const {
         std::ifstream stream = lib::open_read(path_);
         auto dims = detail::get_dims<Header>(stream);
+        check_file_size<T>(path_, dims.first, dims.second, sizeof(Header));
         auto nvectors = std::min(dims.first, max_lines);
         auto ndims = dims.second;
         return Reader<T>(std::move(stream), nvectors, ndims, sizeof(Header));
@@ -438,6 +463,7 @@ class NativeFile {
     Reader<T> reader(lib::Type<T> SVS_UNUSED(type), size_t max_lines = Dynamic) const {
         std::ifstream stream = lib::open_read(path_);
         auto dims = detail::get_dims<Header>(stream);
+        check_file_size<T>(path_, dims.first, dims.second, sizeof(Header));
         auto nvectors = std::min(dims.first, max_lines);
         auto ndims = dims.second;
         return Reader<T>(std::move(stream), nvectors, ndims, sizeof(Header));
-- 
2.43.0


From e875b229b3fe265c40c45d5ad072136ec078f31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:03 +0000
Subject: [PATCH 49/64] fix: refuse graphs, data and entry points that do not
 belong together

---
 include/svs/index/vamana/dynamic_index.h |  8 ++++++++
 include/svs/index/vamana/index.h         | 18 +++++++++++++++++-
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/include/svs/index/vamana/dynamic_index.h b/include/svs/index/vamana/dynamic_index.h
index 3e9a3c8..b5ecea9 100644
--- a/include/svs/index/vamana/dynamic_index.h
+++ b/include/svs/index/vamana/dynamic_index.h
@@ -1250,6 +1250,14 @@ auto auto_dynamic_assemble(
         }
     }
 
+    if (datasize != 0 && parameters.entry_point >= datasize) {
+        throw ANNEXCEPTION(
+            "Entry point {} is outside of the dataset with {} elements!",
+            parameters.entry_point,
+            datasize
+        );
+    }
+
     // At this point, we should be completely validated.
     // Construct the index!
     return MutableVamanaIndex{
diff --git a/include/svs/index/vamana/index.h b/include/svs/index/vamana/index.h
index 4ef1850..063cc9f 100644
--- a/include/svs/index/vamana/index.h
+++ b/include/svs/index/vamana/index.h
@@ -853,12 +853,28 @@ auto auto_assemble(
     auto data = svs::detail::dispatch_load(std::move(data_proto), threadpool);
     auto graph = svs::detail::dispatch_load(std::move(graph_loader), threadpool);
 
+    // Make sure that everything loaded belongs together.
+    auto config = lib::load_from_disk<VamanaIndexParameters>(config_path);
+    const size_t datasize = data.size();
+    const size_t graphsize = graph.n_nodes();
+    if (datasize != graphsize) {
+        throw ANNEXCEPTION(
+            "Reloaded data has {} nodes while the graph has {} nodes!", datasize, graphsize
+        );
+    }
+    if (config.entry_point >= datasize) {
+        throw ANNEXCEPTION(
+            "Entry point {} is outside of the dataset with {} elements!",
+            config.entry_point,
+            datasize
+        );
+    }
+
     // Extract the index type of the provided graph.
     using I = typename decltype(graph)::index_type;
     auto index = VamanaIndex{
         std::move(graph), std::move(data), I{}, std::move(distance), std::move(threadpool)};
 
-    auto config = lib::load_from_disk<VamanaIndexParameters>(config_path);
     index.apply(config);
     return index;
 }
-- 
2.43.0


From c43d6b1813e1a17e6f1ea1a8a645835c7c64cf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:03 +0000
Subject: [PATCH 50/64] fix: refuse datasets and graphs whose binary does not
 match their description

---
 include/svs/core/data/simple.h | 14 +++++++++++++-
 include/svs/core/graph/graph.h | 15 ++++++++++++++-
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/include/svs/core/data/simple.h b/include/svs/core/data/simple.h
index 6f1d646..d86a6c2 100644
--- a/include/svs/core/data/simple.h
+++ b/include/svs/core/data/simple.h
@@ -106,7 +106,19 @@ class GenericSerializer {
         if (!binaryfile.has_value()) {
             throw ANNEXCEPTION("Could not open file with uuid {}!", uuid.str());
         }
-        return io::load_dataset(binaryfile.value(), lazy);
+        auto data = io::load_dataset(binaryfile.value(), lazy);
+        auto num_vectors = lib::load_at<size_t>(table, "num_vectors");
+        auto dims = lib::load_at<size_t>(table, "dims");
+        if (data.size() != num_vectors || data.dimensions() != dims) {
+            throw ANNEXCEPTION(
+                "Expected {} vectors with {} dimensions but loaded {} with {} dimensions!",
+                num_vectors,
+                dims,
+                data.size(),
+                data.dimensions()
+            );
+        }
+        return data;
     }
 };
 
diff --git a/include/svs/core/graph/graph.h b/include/svs/core/graph/graph.h
index c6155a6..f1f666c 100644
--- a/include/svs/core/graph/graph.h
+++ b/include/svs/core/graph/graph.h
@@ -306,7 +306,20 @@ template <std::unsigned_integral Idx, data::MemoryDataset Data> class SimpleGrap
         if (!binaryfile.has_value()) {
             throw ANNEXCEPTION("Could not open file with uuid {}!", uuid.str());
         }
-        return lazy(data_type::load(binaryfile.value(), std::forward<Args>(args)...));
+        auto data = data_type::load(binaryfile.value(), std::forward<Args>(args)...);
+        auto num_vertices = lib::load_at<size_t>(table, "num_vertices");
+        auto max_degree = lib::load_at<size_t>(table, "max_degree");
+        if (data.size() != num_vertices || data.dimensions() != max_degree + 1) {
+            throw ANNEXCEPTION(
+                "Expected a graph with {} vertices and maximum degree {} but loaded {} "
+                "adjacency lists with {} entries!",
+                num_vertices,
+                max_degree,
+                data.size(),
+                data.dimensions()
+            );
+        }
+        return lazy(std::move(data));
     }
 
   protected:
-- 
2.43.0


From 76e2e1689d7a849f686fb60b2c651e14e843c3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:46 +0000
Subject: [PATCH 51/64] fix: reload empty clusterings and binary blobs

---
 include/svs/index/inverted/clustering.h | 8 ++++++++
 include/svs/lib/saveload/bootstrap.h    | 3 ++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/svs/index/inverted/clustering.h b/include/svs/index/inverted/clustering.h
index f22392d..b66cddd 100644
--- a/include/svs/index/inverted/clustering.h
+++ b/include/svs/index/inverted/clustering.h
@@ -613,10 +613,18 @@ template <std::integral I> class Clustering {
                 );
             }
 
+            // The file is empty if there are no clusters.
+            if (actual_filesize == 0 && num_clusters == 0) {
+                return clustering;
+            }
+
             auto io = lib::open_read(file);
             for (size_t i = 0; i < num_clusters; ++i) {
                 clustering.insert(Cluster<I>::deserialize(io));
             }
+            if (lib::narrow<size_t>(io.tellg()) != expected_filesize) {
+                throw ANNEXCEPTION("File {} has more than {} clusters!", file, num_clusters);
+            }
         }
         return clustering;
     }
diff --git a/include/svs/lib/saveload/bootstrap.h b/include/svs/lib/saveload/bootstrap.h
index 5a065a1..b97520a 100644
--- a/include/svs/lib/saveload/bootstrap.h
+++ b/include/svs/lib/saveload/bootstrap.h
@@ -311,7 +311,8 @@ class BinaryBlobLoader : private BinaryBlobSerializer {
             table.context().resolve(load_at<std::filesystem::path>(table, "filename"));
 
         auto loader = BinaryBlobLoader(num_elements, allocator);
-        {
+        // The file is empty if there are no elements.
+        if (num_elements != 0) {
             auto istream = lib::open_read(filename);
             lib::read_binary(istream, loader.data_);
         }
-- 
2.43.0


From cc19abf9c29b30ebcfa559241ccc8fe308c2fa3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:56 +0000
Subject: [PATCH 52/64] fix: name the paths of the inverted facade in the order
 they are used

---
 include/svs/orchestrators/inverted.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/svs/orchestrators/inverted.h b/include/svs/orchestrators/inverted.h
index 7acc427..0b7015f 100644
--- a/include/svs/orchestrators/inverted.h
+++ b/include/svs/orchestrators/inverted.h
@@ -26,8 +26,8 @@ class InvertedInterface {
     ///// Saving
     virtual void save_primary_index(
         const std::filesystem::path& primary_config,
-        const std::filesystem::path& primary_data,
-        const std::filesystem::path& primary_graph
+        const std::filesystem::path& primary_graph,
+        const std::filesystem::path& primary_data
     ) = 0;
 };
 
@@ -62,10 +62,10 @@ class InvertedImpl : public manager::ManagerImpl<QueryTypes, Impl, IFace> {
     ///// Saving
     void save_primary_index(
         const std::filesystem::path& primary_config,
-        const std::filesystem::path& primary_data,
-        const std::filesystem::path& primary_graph
+        const std::filesystem::path& primary_graph,
+        const std::filesystem::path& primary_data
     ) override {
-        impl().save_primary_index(primary_config, primary_data, primary_graph);
+        impl().save_primary_index(primary_config, primary_graph, primary_data);
     }
 };
 
@@ -95,10 +95,10 @@ class Inverted : public manager::IndexManager<InvertedInterface> {
     ///// Saving
     void save_primary_index(
         const std::filesystem::path& primary_config,
-        const std::filesystem::path& primary_data,
-        const std::filesystem::path& primary_graph
+        const std::filesystem::path& primary_graph,
+        const std::filesystem::path& primary_data
     ) {
-        impl_->save_primary_index(primary_config, primary_data, primary_graph);
+        impl_->save_primary_index(primary_config, primary_graph, primary_data);
     }
 
     ///// Building
-- 
2.43.0


From a76397ad8dbb7b6db06434046b53ec6843690044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:31 +0000
Subject: [PATCH 53/64] fix: find the medioid of data whose squared distances
 exceed floats

---
 include/svs/core/medioid.h | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/svs/core/medioid.h b/include/svs/core/medioid.h
index 279aa29..2229664 100644
--- a/include/svs/core/medioid.h
+++ b/include/svs/core/medioid.h
@@ -18,6 +18,7 @@
 #include "svs/lib/threads.h"
 
 // stl
+#include <limits>
 #include <tuple>
 #include <vector>
 
@@ -297,9 +298,12 @@ size_t find_medioid(
 
     // Find the closest element to the medioid that satisfies the predicate.
     // Thread local nearest neighbors.
-    threads::SequentialTLS<Neighbor<size_t>> closest_neighbors(
-        type_traits::sentinel_v<Neighbor<size_t>, std::less<>>, threadpool.size()
-    );
+    // N.B.: Distances stay in double precision. They may exceed the range of floats.
+    struct Closest {
+        size_t id = std::numeric_limits<size_t>::max();
+        double distance = std::numeric_limits<double>::infinity();
+    };
+    threads::SequentialTLS<Closest> closest_neighbors(Closest{}, threadpool.size());
 
     threads::run(
         threadpool,
@@ -321,21 +325,21 @@ size_t find_medioid(
                     distance += diff * diff;
                 }
 
-                if (distance < best.distance()) {
-                    best = {i, lib::narrow_cast<float>(distance)};
+                if (distance < best.distance) {
+                    best = {i, distance};
                 }
             }
         }
     );
 
     // Return the minimum index.
-    auto global_min = type_traits::sentinel_v<Neighbor<size_t>, std::less<>>;
+    auto global_min = Closest{};
     closest_neighbors.visit([&](const auto& neighbor) {
-        if (neighbor < global_min) {
+        if (neighbor.distance < global_min.distance) {
             global_min = neighbor;
         }
     });
-    return global_min.id();
+    return global_min.id;
 }
 
 ///
-- 
2.43.0


From 2ad99f35d21afbfd7277a940286f308c0501c060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:31 +0000
Subject: [PATCH 54/64] fix: refuse to choose more cluster centroids than there
 are vectors

---
 include/svs/core/kmeans.h               | 5 +++++
 include/svs/index/inverted/clustering.h | 6 +++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/svs/core/kmeans.h b/include/svs/core/kmeans.h
index b94c766..4c982be 100644
--- a/include/svs/core/kmeans.h
+++ b/include/svs/core/kmeans.h
@@ -147,6 +147,11 @@ data::SimpleData<float> train_impl(
 ) {
     size_t ndims = data.dimensions();
     auto num_clusters = parameters.clusters;
+    if (num_clusters > data.size()) {
+        throw ANNEXCEPTION(
+            "Cannot train {} clusters on {} vectors!", num_clusters, data.size()
+        );
+    }
 
     // The cluster centroids
     auto centroids = data::SimpleData<float>{num_clusters, ndims};
diff --git a/include/svs/index/inverted/clustering.h b/include/svs/index/inverted/clustering.h
index b66cddd..3312c89 100644
--- a/include/svs/index/inverted/clustering.h
+++ b/include/svs/index/inverted/clustering.h
@@ -155,7 +155,11 @@ std::vector<I, lib::Allocator<I>> randomly_select_centroids(
     // const ClusteringParameters& params,
     lib::Type<I> SVS_UNUSED(integer_type) = {}
 ) {
-    assert(num_centroids <= data_size);
+    if (num_centroids > data_size) {
+        throw ANNEXCEPTION(
+            "Cannot select {} centroids from {} vectors!", num_centroids, data_size
+        );
+    }
     auto rng = std::mt19937_64(seed);
     // N.B.: uniform_int_distribution is inclusive.
     auto distribution = std::uniform_int_distribution<I>(0, lib::narrow<I>(data_size - 1));
-- 
2.43.0


From 843faeaed62c7c23782c52f90cd7e046b9eeeeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:50 +0000
Subject: [PATCH 55/64] fix: compare ids at their common width when computing
 recall

---
 include/svs/lib/misc.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/svs/lib/misc.h b/include/svs/lib/misc.h
index ffe3cf0..83e6c25 100644
--- a/include/svs/lib/misc.h
+++ b/include/svs/lib/misc.h
@@ -184,8 +184,12 @@ template <typename InputIterator1, typename InputIterator2>
 size_t count_intersect(
     InputIterator1 first1, InputIterator1 last1, InputIterator2 first2, InputIterator2 last2
 ) {
-    const auto set1 = std::unordered_set(first1, last1);
-    const auto set2 = std::unordered_set(first2, last2);
+    // Use a common type so no value changes when it is looked up in the other set.
+    using value_type = std::common_type_t<
+        typename std::iterator_traits<InputIterator1>::value_type,
+        typename std::iterator_traits<InputIterator2>::value_type>;
+    const auto set1 = std::unordered_set<value_type>(first1, last1);
+    const auto set2 = std::unordered_set<value_type>(first2, last2);
     return std::count_if(set1.begin(), set1.end(), [&](const auto& x) {
         return set2.find(x) != set2.end();
     });
-- 
2.43.0


From 9411884e95f613d224487c1c89f5249bd780ea51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:50 +0000
Subject: [PATCH 56/64] fix: let vecs and binary files create their writers

---
 include/svs/core/io/binary.h | 2 +-
 include/svs/core/io/vecs.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/svs/core/io/binary.h b/include/svs/core/io/binary.h
index 5967989..fe784b0 100644
--- a/include/svs/core/io/binary.h
+++ b/include/svs/core/io/binary.h
@@ -197,7 +197,7 @@ class BinaryFile {
     ///
     template <typename T>
     BinaryWriter<T> writer(size_t n_vectors, size_t dimensions) const {
-        return BinaryWriter<T>(path_, n_vectors, dimensions);
+        return BinaryWriter<T>(path_.string(), n_vectors, dimensions);
     }
 
     ///
diff --git a/include/svs/core/io/vecs.h b/include/svs/core/io/vecs.h
index 07b9673..67f9f0f 100644
--- a/include/svs/core/io/vecs.h
+++ b/include/svs/core/io/vecs.h
@@ -257,7 +257,7 @@ class VecsFile {
     /// @param dimensions The number of dimensions in each vector being written.
     ///
     template <typename T> VecsWriter<T> writer(size_t dimensions) const {
-        return VecsWriter<T>(path_, dimensions);
+        return VecsWriter<T>(path_.string(), dimensions);
     }
 
     ///
-- 
2.43.0


From a2fc8118515d192f9870c1bf86351fe09ec6ed9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:50 +0000
Subject: [PATCH 57/64] fix: refuse native files announcing more than they hold
 before allocating

---
 include/svs/core/io/native.h | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/svs/core/io/native.h b/include/svs/core/io/native.h
index 12360d4..c3955cb 100644
--- a/include/svs/core/io/native.h
+++ b/include/svs/core/io/native.h
@@ -126,7 +126,20 @@ template <typename T> inline std::pair<size_t, size_t> get_dims(std::ifstream& s
 template <typename T>
 inline std::pair<size_t, size_t> get_dims(const std::filesystem::path& path) {
     auto stream = lib::open_read(path, std::ifstream::in | std::ifstream::binary);
-    return get_dims<T>(stream);
+    const auto dims = get_dims<T>(stream);
+    // Each element occupies at least one byte.
+    const size_t filesize = std::filesystem::file_size(path);
+    const size_t available = filesize - std::min(filesize, sizeof(T));
+    if (dims.first != 0 && dims.second > available / dims.first) {
+        throw ANNEXCEPTION(
+            "File {} of {} bytes cannot hold {} vectors with {} elements!",
+            path,
+            filesize,
+            dims.first,
+            dims.second
+        );
+    }
+    return dims;
 }
 } // namespace detail
 
-- 
2.43.0


From 6210ea6438644294b9c15bce8471015068989cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:50 +0000
Subject: [PATCH 58/64] fix: refuse binary blobs whose file does not hold the
 announced elements

---
 include/svs/lib/saveload/bootstrap.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/svs/lib/saveload/bootstrap.h b/include/svs/lib/saveload/bootstrap.h
index b97520a..c41db02 100644
--- a/include/svs/lib/saveload/bootstrap.h
+++ b/include/svs/lib/saveload/bootstrap.h
@@ -310,6 +310,18 @@ class BinaryBlobLoader : private BinaryBlobSerializer {
         auto filename =
             table.context().resolve(load_at<std::filesystem::path>(table, "filename"));
 
+        // Make sure the file belongs to this description before allocating anything.
+        const size_t filesize = std::filesystem::file_size(filename);
+        if (filesize % sizeof(T) != 0 || filesize / sizeof(T) != num_elements) {
+            throw ANNEXCEPTION(
+                "Blob {} of {} bytes does not hold {} elements of size {}!",
+                filename,
+                filesize,
+                num_elements,
+                sizeof(T)
+            );
+        }
+
         auto loader = BinaryBlobLoader(num_elements, allocator);
         // The file is empty if there are no elements.
         if (num_elements != 0) {
-- 
2.43.0


From f8b3bec20f4d9c30c89fc0c7ee473b4d7f0c16f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:50 +0000
Subject: [PATCH 59/64] fix: refuse id translations whose file does not hold
 the announced points

---
 include/svs/core/translation.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/svs/core/translation.h b/include/svs/core/translation.h
index 36b03ea..0ea538f 100644
--- a/include/svs/core/translation.h
+++ b/include/svs/core/translation.h
@@ -365,12 +365,23 @@ class IDTranslator {
         // Now that we've more-or-less validated the metadata, time to start loading
         // the points.
         auto num_points = lib::load_at<size_t>(table, "num_points");
+        auto resolved = table.resolve_at("filename");
+        constexpr size_t point_size = sizeof(external_id_type) + sizeof(internal_id_type);
+        const size_t filesize = std::filesystem::file_size(resolved);
+        if (filesize % point_size != 0 || filesize / point_size != num_points) {
+            throw ANNEXCEPTION(
+                "Translation {} of {} bytes does not hold {} points!",
+                resolved,
+                filesize,
+                num_points
+            );
+        }
+
         auto translator = IDTranslator{};
         // The file is empty if there are no translations.
         if (num_points == 0) {
             return translator;
         }
-        auto resolved = table.resolve_at("filename");
         auto stream = lib::open_read(resolved);
         for (size_t i = 0; i < num_points; ++i) {
             auto external_id = lib::read_binary<external_id_type>(stream);
-- 
2.43.0


From ae1ba773b2da9529535070221352becdcf81c947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:50 +0000
Subject: [PATCH 60/64] fix: refuse graphs with invalid adjacency lists when
 loading

---
 include/svs/core/graph/graph.h | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/include/svs/core/graph/graph.h b/include/svs/core/graph/graph.h
index f1f666c..a8f0d98 100644
--- a/include/svs/core/graph/graph.h
+++ b/include/svs/core/graph/graph.h
@@ -285,6 +285,24 @@ template <std::unsigned_integral Idx, data::MemoryDataset Data> class SimpleGrap
     }
 
   protected:
+    // Refuse loaded adjacency lists that could not have been saved from a graph.
+    static data_type checked(data_type data) {
+        for (size_t i = 0, imax = data.size(); i < imax; ++i) {
+            std::span<const Idx> list = std::as_const(data).get_datum(i);
+            if (list.empty() || list.front() > list.size() - 1) {
+                throw ANNEXCEPTION("Adjacency list {} has an invalid length!", i);
+            }
+            for (auto j : list.subspan(1, list.front())) {
+                if (j >= imax) {
+                    throw ANNEXCEPTION(
+                        "Node {} has neighbor {} in a graph with {} nodes!", i, j, imax
+                    );
+                }
+            }
+        }
+        return data;
+    }
+
     template <lib::LazyInvocable<data_type> F, typename... Args>
     static lib::lazy_result_t<F, data_type>
     load(const lib::LoadTable& table, const F& lazy, Args&&... args) {
@@ -319,7 +337,7 @@ template <std::unsigned_integral Idx, data::MemoryDataset Data> class SimpleGrap
                 data.dimensions()
             );
         }
-        return lazy(std::move(data));
+        return lazy(checked(std::move(data)));
     }
 
   protected:
@@ -376,7 +394,7 @@ class SimpleGraph : public SimpleGraphBase<Idx, data::SimpleData<Idx, Dynamic, A
         if (data::detail::is_likely_reload(path)) {
             return lib::load_from_disk<SimpleGraph>(path, allocator);
         } else {
-            return SimpleGraph(data_type::load(path, allocator));
+            return SimpleGraph(parent_type::checked(data_type::load(path, allocator)));
         }
     }
 };
@@ -419,7 +437,7 @@ class SimpleBlockedGraph
         if (data::detail::is_likely_reload(path)) {
             return lib::load_from_disk<SimpleBlockedGraph>(path);
         } else {
-            return SimpleBlockedGraph(data_type::load(path));
+            return SimpleBlockedGraph(parent_type::checked(data_type::load(path)));
         }
     }
 };
-- 
2.43.0


From 059be73604ac284b600c9a5988122985d1cf1365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:50 +0000
Subject: [PATCH 61/64] fix: refuse clusterings whose file holds other clusters
 than announced

---
 include/svs/index/inverted/clustering.h | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/svs/index/inverted/clustering.h b/include/svs/index/inverted/clustering.h
index 3312c89..6e23288 100644
--- a/include/svs/index/inverted/clustering.h
+++ b/include/svs/index/inverted/clustering.h
@@ -233,9 +233,19 @@ template <std::integral I> struct Cluster {
         return bytes;
     }
 
-    static Cluster deserialize(std::istream& stream) {
+    static Cluster deserialize(
+        std::istream& stream, size_t max_size = std::numeric_limits<size_t>::max()
+    ) {
         I centroid = lib::read_binary<I>(stream);
         size_t size = lib::read_binary<size_t>(stream);
+        if (size > max_size) {
+            throw ANNEXCEPTION(
+                "Cluster {} announces {} elements, expected at most {}!",
+                centroid,
+                size,
+                max_size
+            );
+        }
         Cluster cluster(centroid);
         cluster.elements_.resize(size);
         lib::read_binary(stream, cluster.elements_);
@@ -624,7 +634,13 @@ template <std::integral I> class Clustering {
 
             auto io = lib::open_read(file);
             for (size_t i = 0; i < num_clusters; ++i) {
-                clustering.insert(Cluster<I>::deserialize(io));
+                // No cluster can have more elements than fit in the whole file.
+                clustering.insert(
+                    Cluster<I>::deserialize(io, expected_filesize / sizeof(Neighbor<I>))
+                );
+            }
+            if (clustering.size() != num_clusters) {
+                throw ANNEXCEPTION("File {} repeats a cluster!", file);
             }
             if (lib::narrow<size_t>(io.tellg()) != expected_filesize) {
                 throw ANNEXCEPTION("File {} has more than {} clusters!", file, num_clusters);
-- 
2.43.0


From a916721f7e3fd8c0d97431d9d9ed69552203a8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:50 +0000
Subject: [PATCH 62/64] fix: refuse clusterings referring to vectors the
 dataset lacks

---
 include/svs/index/inverted/memory_based.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/svs/index/inverted/memory_based.h b/include/svs/index/inverted/memory_based.h
index 45b519c..3a79749 100644
--- a/include/svs/index/inverted/memory_based.h
+++ b/include/svs/index/inverted/memory_based.h
@@ -577,6 +577,21 @@ auto assemble_from_clustering(
     auto original = svs::detail::dispatch_load(std::move(data_proto), threadpool);
     auto clustering = lib::load_from_disk<Clustering<uint32_t>>(clustering_path);
     auto ids = clustering.sorted_centroids();
+    auto check_id = [&](size_t id) {
+        if (id >= original.size()) {
+            throw ANNEXCEPTION(
+                "Clustering refers to vector {} of a dataset with {} vectors!",
+                id,
+                original.size()
+            );
+        }
+    };
+    for (const auto& [centroid, cluster] : clustering) {
+        check_id(centroid);
+        for (const auto& neighbor : cluster.elements()) {
+            check_id(neighbor.id());
+        }
+    }
 
     // Create the prinary dataset from the original.
     auto index = index::vamana::auto_assemble(
-- 
2.43.0


From c02f1b112c0c66b6af2d7646e6f8ebeb7ebd55e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:23 +0000
Subject: [PATCH 63/64] fix: report writes that fail while saving

---
 include/svs/core/data/io.h              | 2 ++
 include/svs/core/io/binary.h            | 2 +-
 include/svs/core/io/native.h            | 7 +++++--
 include/svs/core/io/vecs.h              | 2 +-
 include/svs/core/translation.h          | 1 +
 include/svs/index/inverted/clustering.h | 1 +
 include/svs/lib/file.h                  | 9 +++++++++
 include/svs/lib/saveload/bootstrap.h    | 1 +
 include/svs/lib/saveload/save.h         | 1 +
 9 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/include/svs/core/data/io.h b/include/svs/core/data/io.h
index 330874b..40be604 100644
--- a/include/svs/core/data/io.h
+++ b/include/svs/core/data/io.h
@@ -113,6 +113,7 @@ void save(
     for (size_t i = 0; i < data.size(); ++i) {
         writer << accessor.get(data, i);
     }
+    writer.flush();
 }
 
 template <data::ImmutableMemoryDataset Dataset, typename File>
@@ -134,6 +135,7 @@ void save_vecs(const Dataset& data, const std::filesystem::path& path) {
     for (size_t i = 0; i < data.size(); ++i) {
         writer << data.get_datum(i);
     }
+    writer.flush();
 }
 
 /////
diff --git a/include/svs/core/io/binary.h b/include/svs/core/io/binary.h
index fe784b0..9ebec8c 100644
--- a/include/svs/core/io/binary.h
+++ b/include/svs/core/io/binary.h
@@ -159,7 +159,7 @@ template <typename T = void> class BinaryWriter {
 
     template <typename U> BinaryWriter& operator<<(U&& v) { return append(v); }
 
-    void flush() { stream_.flush(); }
+    void flush() { lib::finish_write(stream_); }
 
   private:
     Header header_;
diff --git a/include/svs/core/io/native.h b/include/svs/core/io/native.h
index c3955cb..17ba411 100644
--- a/include/svs/core/io/native.h
+++ b/include/svs/core/io/native.h
@@ -414,13 +414,16 @@ template <typename T = void> class Writer {
 
     template <typename U> Writer& operator<<(U&& v) { return append(std::forward<U>(v)); }
 
-    void flush() { stream_.flush(); }
+    void flush() { lib::finish_write(stream_); }
 
     void writeheader(bool resume = true) {
+        // Leave the temporary header in place if the vectors could not be written.
+        if (!stream_.good()) {
+            return;
+        }
         auto position = stream_.tellp();
         // Write to the header the number of vectors actually written.
         stream_.seekp(0);
-        assert(stream_.good());
         lib::write_binary(stream_, Header(vectors_written_, dimension_, uuid_));
         if (resume) {
             stream_.seekp(position, std::ofstream::beg);
diff --git a/include/svs/core/io/vecs.h b/include/svs/core/io/vecs.h
index 67f9f0f..2a99015 100644
--- a/include/svs/core/io/vecs.h
+++ b/include/svs/core/io/vecs.h
@@ -222,7 +222,7 @@ template <typename T = void> class VecsWriter {
 
     template <typename U> VecsWriter& operator<<(U&& v) { return append(v); }
 
-    void flush() { stream_.flush(); }
+    void flush() { lib::finish_write(stream_); }
 
   private:
     size_t dimension_;
diff --git a/include/svs/core/translation.h b/include/svs/core/translation.h
index 0ea538f..fc83aa6 100644
--- a/include/svs/core/translation.h
+++ b/include/svs/core/translation.h
@@ -337,6 +337,7 @@ class IDTranslator {
             lib::write_binary(stream, i->first);
             lib::write_binary(stream, i->second);
         }
+        lib::finish_write(stream, filename);
         return lib::SaveTable(
             serialization_schema,
             save_version,
diff --git a/include/svs/index/inverted/clustering.h b/include/svs/index/inverted/clustering.h
index 6e23288..0758a34 100644
--- a/include/svs/index/inverted/clustering.h
+++ b/include/svs/index/inverted/clustering.h
@@ -589,6 +589,7 @@ template <std::integral I> class Clustering {
             for (auto& cluster : *this) {
                 filesize += cluster.second.serialize(io);
             }
+            lib::finish_write(io, fullpath);
         }
 
         return lib::SaveTable(
diff --git a/include/svs/lib/file.h b/include/svs/lib/file.h
index f267f7c..203a5a0 100644
--- a/include/svs/lib/file.h
+++ b/include/svs/lib/file.h
@@ -98,6 +98,15 @@ inline std::ofstream open_write(
     return std::ofstream(path, mode);
 }
 
+/// @brief Make sure everything written to a stream has arrived in its file.
+inline void
+finish_write(std::ostream& stream, const std::filesystem::path& path = "(unknown)") {
+    stream.flush();
+    if (!stream) {
+        throw ANNEXCEPTION("Could not write all of file {}!", path);
+    }
+}
+
 inline std::ifstream open_read(
     const std::filesystem::path& path, std::ios_base::openmode mode = file_flags::open_read
 ) {
diff --git a/include/svs/lib/saveload/bootstrap.h b/include/svs/lib/saveload/bootstrap.h
index c41db02..a581b31 100644
--- a/include/svs/lib/saveload/bootstrap.h
+++ b/include/svs/lib/saveload/bootstrap.h
@@ -252,6 +252,7 @@ class BinaryBlobSaver : private BinaryBlobSerializer {
         {
             auto ostream = lib::open_write(path);
             bytes_written += lib::write_binary(ostream, data_);
+            lib::finish_write(ostream, path);
         }
 
         return SaveTable(
diff --git a/include/svs/lib/saveload/save.h b/include/svs/lib/saveload/save.h
index ada8024..6470e8a 100644
--- a/include/svs/lib/saveload/save.h
+++ b/include/svs/lib/saveload/save.h
@@ -312,6 +312,7 @@ void save_node_to_file(
     );
     auto file = svs::lib::open_write(path, std::ios_base::out);
     file << top_table << "\n";
+    lib::finish_write(file, path);
 }
 } // namespace detail
 
-- 
2.43.0


From 2f50c1e99fff16f6179b0dfd8b2ac37e72cbe155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:27 +0000
Subject: [PATCH 64/64] fix: do not allocate a vector buffer for native files
 without vectors

---
 include/svs/core/io/native.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/svs/core/io/native.h b/include/svs/core/io/native.h
index 17ba411..db547e4 100644
--- a/include/svs/core/io/native.h
+++ b/include/svs/core/io/native.h
@@ -234,7 +234,8 @@ template <typename T> class Reader {
 
         // If there's no metadata, then construct an iterator that simply yields
         // vectors. Otherwise, we need to bundle up the metadata as well.
-        auto reader = lib::VectorReader<T>(ndims());
+        // The dimensions of a damaged file without vectors can be arbitrarily large.
+        auto reader = lib::VectorReader<T>(nvectors() == 0 ? 0 : ndims());
         return lib::heterogeneous_iterator(stream_, nvectors(), std::move(reader));
     }
 
-- 
2.43.0

