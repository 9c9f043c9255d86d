From 53fb6790b244b694e1271f60e821acc5b39348d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:12 +0000
Subject: [PATCH 01/50] fix: wait for every worker and report every kind of
 exception in thread pool runs

A job throwing something not derived from std::exception on the calling thread left run()
while workers were still executing it; such an exception on a worker escaped before the
other workers were collected and left the crashed thread in place. Failing to create a
replacement thread had the same effect on later runs.
---
 include/svs/lib/threads/threadpool.h | 45 ++++++++++++++++++++++------
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/include/svs/lib/threads/threadpool.h b/include/svs/lib/threads/threadpool.h
index 05399b8..0716458 100644
--- a/include/svs/lib/threads/threadpool.h
+++ b/include/svs/lib/threads/threadpool.h
@@ -156,27 +156,55 @@ template <typename Builder> class NativeThreadPoolBase {
 
     void run(FunctionRef f) {
         std::lock_guard lock{*use_mutex_};
+        // If replacing a thread that crashed in an earlier run failed, try again before any
+        // work is handed out.
+        restart_crashed_threads();
         for (size_t i = 0; i < threads_.size(); ++i) {
             threads_[i].assign({f, i + 1});
         }
         // Run on the main function.
+        bool failed = false;
+        auto message = std::string{};
         try {
             f(0);
-        } catch (const std::exception& error) { manage_exception_during_run(error.what()); }
+        } catch (const std::exception& error) {
+            failed = true;
+            message = error.what();
+        } catch (...) {
+            failed = true;
+            message = unknown_exception();
+        }
 
         // Wait until all threads are done.
         // If any thread fails, then we're throwing.
+        for (auto& thread : threads_) {
+            thread.wait();
+            failed = failed || !thread.is_okay();
+        }
+        if (failed) {
+            manage_exception_during_run(message);
+        }
+    }
+
+  private:
+    static constexpr const char* unknown_exception() { return "unknown exception"; }
+
+    // Replace all threads that have crashed.
+    void restart_crashed_threads() {
         for (size_t i = 0; i < threads_.size(); ++i) {
             auto& thread = threads_[i];
-            thread.wait();
             if (!thread.is_okay()) {
-                manage_exception_during_run();
+                // Joins the thread. If its exception has not been collected, drop it.
+                try {
+                    thread.shutdown();
+                } catch (...) {}
+                thread = builder_.build(i + 1);
             }
         }
     }
 
-  private:
-    void manage_exception_during_run(const std::string& thread_0_message = {}) {
+    // Pre-condition: No thread is working.
+    void manage_exception_during_run(const std::string& thread_0_message) {
         auto message = std::string{};
         auto inserter = std::back_inserter(message);
         if (!thread_0_message.empty()) {
@@ -186,18 +214,17 @@ template <typename Builder> class NativeThreadPoolBase {
         // Manage all other exceptions thrown, restarting crashed threads.
         for (size_t i = 0; i < threads_.size(); ++i) {
             auto& thread = threads_[i];
-            thread.wait();
             if (!thread.is_okay()) {
                 try {
                     thread.unsafe_get_exception();
                 } catch (const std::exception& error) {
                     fmt::format_to(inserter, "Thread {}: {}\n", i + 1, error.what());
+                } catch (...) {
+                    fmt::format_to(inserter, "Thread {}: {}\n", i + 1, unknown_exception());
                 }
-                // Restart the thread.
-                threads_[i].shutdown();
-                threads_[i] = builder_.build(i + 1);
             }
         }
+        restart_crashed_threads();
         throw ThreadingException{std::move(message)};
     }
 };
-- 
2.43.0


From a6131e9f8cac8ad9ab62c6c44c72035496a398b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:12 +0000
Subject: [PATCH 02/50] fix: partition work for the thread pool's size at the
 time it runs

threads::run read the pool's size before the pool was locked. A concurrent resize was a
data race on the thread list and left parts of a statically partitioned job undone.
---
 include/svs/lib/threads/threadpool.h | 40 ++++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/include/svs/lib/threads/threadpool.h b/include/svs/lib/threads/threadpool.h
index 0716458..3af0ffb 100644
--- a/include/svs/lib/threads/threadpool.h
+++ b/include/svs/lib/threads/threadpool.h
@@ -55,15 +55,32 @@ concept ResizeableThreadPool = requires(Pool& pool, size_t sz) {
 };
 // clang-format on
 
+namespace detail {
+// Run the function returned by `make(ThreadCount)` on all threads of the pool.
+//
+// If the pool supports it, the number of threads is obtained while the pool is locked so
+// the work cannot be partitioned for a size that a concurrent resize has changed.
+template <ThreadPool Pool, typename Make> void run_partitioned(Pool& pool, Make&& make) {
+    if constexpr (requires { pool.run_with_size(make); }) {
+        pool.run_with_size(make);
+    } else {
+        auto&& f_wrapped = make(ThreadCount{pool.size()});
+        pool.run(FunctionRef(f_wrapped));
+    }
+}
+} // namespace detail
+
 template <ThreadPool Pool, typename F> void run(Pool& pool, F&& f) {
-    auto f_wrapped = thunks::wrap(ThreadCount{pool.size()}, f);
-    pool.run(FunctionRef(f_wrapped));
+    detail::run_partitioned(pool, [&](ThreadCount nthreads) -> decltype(auto) {
+        return thunks::wrap(nthreads, f);
+    });
 }
 
 template <ThreadPool Pool, typename T, typename F> void run(Pool& pool, T&& arg, F&& f) {
     if (!arg.empty()) {
-        auto f_wrapped = thunks::wrap(ThreadCount{pool.size()}, f, std::forward<T>(arg));
-        pool.run(FunctionRef(f_wrapped));
+        detail::run_partitioned(pool, [&](ThreadCount nthreads) -> decltype(auto) {
+            return thunks::wrap(nthreads, f, std::forward<T>(arg));
+        });
     }
 }
 
@@ -156,6 +173,20 @@ template <typename Builder> class NativeThreadPoolBase {
 
     void run(FunctionRef f) {
         std::lock_guard lock{*use_mutex_};
+        run_locked(f);
+    }
+
+    // Run the function returned by `make(ThreadCount)`. The number of threads does not
+    // change between the call to `make` and the end of the run.
+    template <typename Make> void run_with_size(Make&& make) {
+        std::lock_guard lock{*use_mutex_};
+        auto&& f = make(ThreadCount{size()});
+        run_locked(FunctionRef(f));
+    }
+
+  private:
+    // Pre-condition: `use_mutex_` is held.
+    void run_locked(FunctionRef f) {
         // If replacing a thread that crashed in an earlier run failed, try again before any
         // work is handed out.
         restart_crashed_threads();
@@ -186,7 +217,6 @@ template <typename Builder> class NativeThreadPoolBase {
         }
     }
 
-  private:
     static constexpr const char* unknown_exception() { return "unknown exception"; }
 
     // Replace all threads that have crashed.
-- 
2.43.0


From 81a2968f232362ad153904522aef384f2bd609e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:46 +0000
Subject: [PATCH 03/50] fix: mark graph search positions without a result
 instead of returning left-overs

---
 include/svs/index/vamana/dynamic_index.h |  6 +++++-
 include/svs/index/vamana/extensions.h    | 11 ++++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/svs/index/vamana/dynamic_index.h b/include/svs/index/vamana/dynamic_index.h
index e8b288e..720e829 100644
--- a/include/svs/index/vamana/dynamic_index.h
+++ b/include/svs/index/vamana/dynamic_index.h
@@ -369,7 +369,8 @@ class MutableVamanaIndex {
     ///     reasons.
     ///
     /// (2) All entries in `ids` should have valid translations. Otherwise, this function's
-    ///     behavior is undefined.
+    ///     behavior is undefined. The only exception is the id used by searches to mark
+    ///     positions without a result, which is kept as is.
     ///
     template <class Dims, class Base>
         requires(std::tuple_size_v<Dims> == 2)
@@ -381,6 +382,9 @@ class MutableVamanaIndex {
             [&](const auto is, uint64_t /*tid*/) {
                 for (auto i : is) {
                     for (size_t j = 0, jmax = getsize<1>(ids); j < jmax; ++j) {
+                        if (ids.at(i, j) == std::numeric_limits<size_t>::max()) {
+                            continue;
+                        }
                         auto internal = lib::narrow_cast<Idx>(ids.at(i, j));
                         ids.at(i, j) = translate_internal_id(internal);
                     }
diff --git a/include/svs/index/vamana/extensions.h b/include/svs/index/vamana/extensions.h
index 647458e..c3eb03e 100644
--- a/include/svs/index/vamana/extensions.h
+++ b/include/svs/index/vamana/extensions.h
@@ -512,15 +512,24 @@ void svs_invoke(
     const Search& search
 ) {
     // Fallback implementation
+    using compare_type = typename SearchBuffer::compare_type;
+    constexpr auto no_result = type_traits::sentinel_v<Neighbor<I>, compare_type>;
+
     size_t num_neighbors = result.n_neighbors();
     for (auto i : thread_indices) {
         // Perform search - results will be queued in the search buffer.
         single_search(dataset, search_buffer, distance, queries.get_datum(i), search);
 
         // Copy back results.
-        for (size_t j = 0; j < num_neighbors; ++j) {
+        // The search may have found fewer than `num_neighbors` neighbors. Entries past the
+        // end of the search buffer are left-overs and must not be returned.
+        size_t num_found = std::min(num_neighbors, search_buffer.size());
+        for (size_t j = 0; j < num_found; ++j) {
             result.set(search_buffer[j], i, j);
         }
+        for (size_t j = num_found; j < num_neighbors; ++j) {
+            result.set(no_result, i, j);
+        }
     }
 }
 
-- 
2.43.0


From 0a43ea7aa20c752be981dc0e5e95e3be172e1dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:46 +0000
Subject: [PATCH 04/50] fix: mark clustered search positions without a result
 instead of returning left-overs

---
 include/svs/index/inverted/memory_based.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/svs/index/inverted/memory_based.h b/include/svs/index/inverted/memory_based.h
index 6e5cf39..23e80dc 100644
--- a/include/svs/index/inverted/memory_based.h
+++ b/include/svs/index/inverted/memory_based.h
@@ -393,6 +393,9 @@ template <typename Index, typename Cluster> class InvertedIndex {
                 // A search buffer to accumulate results of the cluster search.
                 auto buffer = threads::shallow_copy(scratch.buffer);
                 buffer.change_maxsize(num_neighbors);
+                constexpr auto no_result = type_traits::sentinel_v<
+                    Neighbor<Idx>,
+                    typename decltype(buffer)::compare_type>;
 
                 for (auto i : is) {
                     buffer.clear();
@@ -437,9 +440,14 @@ template <typename Index, typename Cluster> class InvertedIndex {
                     }
 
                     // Store results
-                    for (size_t j = 0; j < num_neighbors; ++j) {
+                    // The visited clusters may hold fewer than `num_neighbors` elements.
+                    size_t num_found = std::min(num_neighbors, buffer.size());
+                    for (size_t j = 0; j < num_found; ++j) {
                         results.set(buffer[j], i, j);
                     }
+                    for (size_t j = num_found; j < num_neighbors; ++j) {
+                        results.set(no_result, i, j);
+                    }
                 }
             }
         );
-- 
2.43.0


From 82b4cbebc1d4bee0c7128c6b9209d2930907b278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:21 +0000
Subject: [PATCH 05/50] fix: read an adjacency list under its lock while
 reverse edges are added

---
 include/svs/index/vamana/vamana_build.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/svs/index/vamana/vamana_build.h b/include/svs/index/vamana/vamana_build.h
index b53c690..2f5889f 100644
--- a/include/svs/index/vamana/vamana_build.h
+++ b/include/svs/index/vamana/vamana_build.h
@@ -451,8 +451,16 @@ class VamanaBuilder {
         auto range = threads::StaticPartition{indices};
         backedge_buffer_.reset();
         threads::run(threadpool_, range, [&](const auto& is, uint64_t SVS_UNUSED(tid)) {
+            std::vector<Idx> neighbors{};
             for (auto node_id : is) {
-                for (auto other_id : graph_.get_node(node_id)) {
+                // Other threads may be appending to this adjacency list. Work on a copy
+                // obtained while holding the lock for this node.
+                {
+                    std::lock_guard lock{vertex_locks_[node_id]};
+                    const auto& list = graph_.get_node(node_id);
+                    neighbors.assign(list.begin(), list.end());
+                }
+                for (auto other_id : neighbors) {
                     std::lock_guard lock{vertex_locks_[other_id]};
                     if (graph_.get_node_degree(other_id) < params_.graph_max_degree) {
                         graph_.add_edge(other_id, node_id);
-- 
2.43.0


From ac88ea3b414ec2de9306e4e84f66d9712569cf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:21 +0000
Subject: [PATCH 06/50] fix: clear the result before pruning an empty candidate
 pool

---
 include/svs/index/vamana/prune.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/svs/index/vamana/prune.h b/include/svs/index/vamana/prune.h
index ee6b13d..0c6dee8 100644
--- a/include/svs/index/vamana/prune.h
+++ b/include/svs/index/vamana/prune.h
@@ -112,11 +112,11 @@ void heuristic_prune_neighbors(
 ) {
     auto cmp = distance::comparator(distance_function);
     assert(std::is_sorted(pool.begin(), pool.end(), cmp));
+    result.clear();
     if (pool.empty()) {
         return;
     }
 
-    result.clear();
     result.reserve(max_result_size);
     size_t poolsize = pool.size();
     if (poolsize == 0) {
@@ -188,11 +188,11 @@ void heuristic_prune_neighbors(
 ) {
     auto cmp = distance::comparator(distance_function);
     assert(std::is_sorted(pool.begin(), pool.end(), cmp));
+    result.clear();
     if (pool.empty()) {
         return;
     }
 
-    result.clear();
     result.reserve(max_result_size);
     size_t poolsize = pool.size();
     std::vector<float> pruned(poolsize, type_traits::tombstone_v<float, decltype(cmp)>);
@@ -262,11 +262,11 @@ void heuristic_prune_neighbors(
 ) {
     auto cmp = distance::comparator(distance_function);
     assert(std::is_sorted(pool.begin(), pool.end(), cmp));
+    result.clear();
     if (pool.empty()) {
         return;
     }
 
-    result.clear();
     result.reserve(max_result_size);
     size_t poolsize = pool.size();
     std::vector<bool> pruned(poolsize, false);
-- 
2.43.0


From 520e3e6fb1c333888098f2475a16e7c36dd77693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:29 +0000
Subject: [PATCH 07/50] fix: adding no points to the dynamic index does not
 shrink its data

---
 include/svs/index/vamana/dynamic_index.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/svs/index/vamana/dynamic_index.h b/include/svs/index/vamana/dynamic_index.h
index 720e829..21bd443 100644
--- a/include/svs/index/vamana/dynamic_index.h
+++ b/include/svs/index/vamana/dynamic_index.h
@@ -554,8 +554,8 @@ class MutableVamanaIndex {
         std::vector<size_t> slots{};
         slots.reserve(num_points);
 
-        bool have_room = false;
-        for (size_t i = 0, imax = status_.size(); i < imax; ++i) {
+        bool have_room = (num_points == 0);
+        for (size_t i = 0, imax = status_.size(); i < imax && !have_room; ++i) {
             if (status_[i] == SlotMetadata::Empty) {
                 slots.push_back(i);
             }
-- 
2.43.0


From e92e3b2c322928feed3fcf7a320e5aafae81804c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:29 +0000
Subject: [PATCH 08/50] fix: reject repeated IDs in a deletion from the dynamic
 index before changing it

---
 include/svs/index/vamana/dynamic_index.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/svs/index/vamana/dynamic_index.h b/include/svs/index/vamana/dynamic_index.h
index 21bd443..739f7e6 100644
--- a/include/svs/index/vamana/dynamic_index.h
+++ b/include/svs/index/vamana/dynamic_index.h
@@ -638,6 +638,9 @@ class MutableVamanaIndex {
     ///
     template <typename T> void delete_entries(const T& ids) {
         translator_.check_external_exist(ids.begin(), ids.end());
+        if (!lib::all_unique(ids.begin(), ids.end())) {
+            throw ANNEXCEPTION("IDs to delete contain repeat elements!");
+        }
         for (auto i : ids) {
             delete_entry(translator_.get_internal(i));
         }
-- 
2.43.0


From d8e3d0228c9bae61fc7c660cf41ccb8026128642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:29 +0000
Subject: [PATCH 09/50] fix: compacting the dynamic index keeps soft-deleted
 entries

---
 include/svs/index/vamana/dynamic_index.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/svs/index/vamana/dynamic_index.h b/include/svs/index/vamana/dynamic_index.h
index 739f7e6..6d0004a 100644
--- a/include/svs/index/vamana/dynamic_index.h
+++ b/include/svs/index/vamana/dynamic_index.h
@@ -669,7 +669,7 @@ class MutableVamanaIndex {
         auto indices = std::vector<Idx>();
         indices.reserve(size());
         for (size_t i = 0, imax = status_.size(); i < imax; ++i) {
-            if (!is_deleted(i)) {
+            if (status_[i] != SlotMetadata::Empty) {
                 indices.push_back(i);
             }
         }
-- 
2.43.0


From 8f3872a997557f7b0bf1118bd921b115648781c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:34 +0000
Subject: [PATCH 10/50] fix: consolidating a dynamic index whose points are all
 deleted does not search for an entry point

---
 include/svs/index/vamana/dynamic_index.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/svs/index/vamana/dynamic_index.h b/include/svs/index/vamana/dynamic_index.h
index 6d0004a..e0413d9 100644
--- a/include/svs/index/vamana/dynamic_index.h
+++ b/include/svs/index/vamana/dynamic_index.h
@@ -822,6 +822,12 @@ class MutableVamanaIndex {
         auto check_is_deleted = [&](size_t i) { return this->is_deleted(i); };
         auto valid = [&](size_t i) { return !(this->is_deleted(i)); };
 
+        // Without any valid entry there is no entry point to move to. Keep the deleted
+        // entries navigable until new points are added.
+        if (size() == 0) {
+            return;
+        }
+
         // Determine if the entry point is deleted.
         // If so - we need to pick a new one.
         assert(entry_point_.size() == 1);
@@ -864,6 +870,10 @@ class MutableVamanaIndex {
         const std::filesystem::path& graph_directory,
         const std::filesystem::path& data_directory
     ) {
+        if (size() == 0) {
+            throw ANNEXCEPTION("Cannot save a dynamic index without any valid entries!");
+        }
+
         // Post-consolidation, all entries should be "valid".
         // Therefore, we don't need to save the slot metadata.
         consolidate();
-- 
2.43.0


From 175dad0da656e0bf3838ad69d8dadeb4f55c52b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:35 +0000
Subject: [PATCH 11/50] fix: a failing addition to the dynamic index is rolled
 back

---
 include/svs/core/translation.h           | 20 ++++++--
 include/svs/index/vamana/dynamic_index.h | 59 ++++++++++++++++--------
 2 files changed, 55 insertions(+), 24 deletions(-)

diff --git a/include/svs/core/translation.h b/include/svs/core/translation.h
index c1c7efb..cbb50e7 100644
--- a/include/svs/core/translation.h
+++ b/include/svs/core/translation.h
@@ -30,6 +30,7 @@
 #include "tsl/robin_map.h"
 
 // stl
+#include <algorithm>
 #include <functional>
 #include <iterator>
 #include <string_view>
@@ -126,10 +127,21 @@ class IDTranslator {
         // Now, we actually begin the insertion.
         auto i = int_begin;
         auto e = ext_begin;
-        while (i != int_end || e != ext_end) {
-            insert_translation(*e, *i);
-            ++e;
-            ++i;
+        try {
+            while (i != int_end || e != ext_end) {
+                insert_translation(*e, *i);
+                ++e;
+                ++i;
+            }
+        } catch (...) {
+            // Growing a table can fail: undo a partially completed operation.
+            std::for_each(int_begin, int_end, [&](const auto& id) {
+                internal_to_external_.erase(id);
+            });
+            std::for_each(ext_begin, ext_end, [&](const auto& id) {
+                external_to_internal_.erase(id);
+            });
+            throw;
         }
     }
 
diff --git a/include/svs/index/vamana/dynamic_index.h b/include/svs/index/vamana/dynamic_index.h
index e0413d9..07dc759 100644
--- a/include/svs/index/vamana/dynamic_index.h
+++ b/include/svs/index/vamana/dynamic_index.h
@@ -571,11 +571,18 @@ class MutableVamanaIndex {
             size_t needed = num_points - slots.size();
             size_t current_size = data_.size();
             size_t new_size = current_size + needed;
+            status_.reserve(new_size);
             data_.resize(new_size);
 
             // Graph resizing marked as un-safe because graph contain internal references
             // and thus it's not a good idea to go around shrinking the graph without care.
-            graph_.unsafe_resize(new_size);
+            try {
+                graph_.unsafe_resize(new_size);
+            } catch (...) {
+                // Keep the sizes of the data and the graph in-sync.
+                data_.resize(current_size);
+                throw;
+            }
             status_.resize(new_size, SlotMetadata::Empty);
             // Append the correct number of extra slots.
             threads::UnitRange<size_t> extra_points{current_size, current_size + needed};
@@ -586,27 +593,39 @@ class MutableVamanaIndex {
         // Try to update the id translation now that we have internal ids.
         // If this fails, we still haven't mutated the index data structure so we're safe
         // to throw an exception.
-        translator_.insert(external_ids, slots);
-
-        // Copy the given points into the data and clear the adjacency lists for the graph.
-        copy_points(points, slots);
+        //
+        // The lists of the empty slots are unreachable and are cleared beforehand.
         clear_lists(slots);
+        translator_.insert(external_ids, slots);
 
-        // Patch in the new neighbors.
-        auto parameters = VamanaBuildParameters{
-            alpha_,
-            graph_.max_degree(),
-            construction_window_size_,
-            max_candidates_,
-            prune_to_,
-            use_full_search_history_};
-
-        auto sp = get_search_parameters();
-        auto prefetch_parameters =
-            GreedySearchPrefetchParameters{sp.prefetch_lookahead_, sp.prefetch_step_};
-        VamanaBuilder builder{
-            graph_, data_, distance_, parameters, threadpool_, prefetch_parameters};
-        builder.construct(alpha_, entry_point(), slots, logging::Level::Trace);
+        try {
+            // Copy the given points into the data.
+            copy_points(points, slots);
+
+            // Patch in the new neighbors.
+            auto parameters = VamanaBuildParameters{
+                alpha_,
+                graph_.max_degree(),
+                construction_window_size_,
+                max_candidates_,
+                prune_to_,
+                use_full_search_history_};
+
+            auto sp = get_search_parameters();
+            auto prefetch_parameters =
+                GreedySearchPrefetchParameters{sp.prefetch_lookahead_, sp.prefetch_step_};
+            VamanaBuilder builder{
+                graph_, data_, distance_, parameters, threadpool_, prefetch_parameters};
+            builder.construct(alpha_, entry_point(), slots, logging::Level::Trace);
+        } catch (...) {
+            // Existing nodes may already link to the new slots. Treat these as deleted so
+            // the next consolidation will reclaim them.
+            translator_.delete_external(external_ids, false);
+            for (const auto& i : slots) {
+                status_[i] = SlotMetadata::Deleted;
+            }
+            throw;
+        }
         // Mark all added entries as valid.
         for (const auto& i : slots) {
             status_[i] = SlotMetadata::Valid;
-- 
2.43.0


From 7e8547bebad16eaa8c86567199e26bb3804e175d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:20 +0000
Subject: [PATCH 12/50] fix: compacting the dynamic index acquires its scratch
 space before moving anything

---
 include/svs/index/vamana/dynamic_index.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/svs/index/vamana/dynamic_index.h b/include/svs/index/vamana/dynamic_index.h
index 07dc759..3ca6c17 100644
--- a/include/svs/index/vamana/dynamic_index.h
+++ b/include/svs/index/vamana/dynamic_index.h
@@ -717,11 +717,18 @@ class MutableVamanaIndex {
             old_to_new_id_map.insert({old_id, new_id});
         }
 
+        // Acquire the scratch space for the graph before anything is moved: running out of
+        // memory half-way through would leave the index inconsistent.
+        auto temp_graph = graphs::SimpleGraph<Idx>(batch_size, graph_.max_degree());
+        auto buffers = std::vector<std::vector<Idx>>(threadpool_.size());
+        for (auto& buffer : buffers) {
+            buffer.reserve(graph_.max_degree());
+        }
+
         // Compact the data.
         data_.compact(lib::as_const_span(new_to_old_id_map), threadpool_, batch_size);
 
         // Manually compact the graph.
-        auto temp_graph = graphs::SimpleGraph<Idx>(batch_size, graph_.max_degree());
 
         // TODO: Write helper classes to do this partitioning.
         Idx start = 0;
@@ -736,8 +743,8 @@ class MutableVamanaIndex {
             threads::run(
                 threadpool_,
                 threads::StaticPartition(this_batch),
-                [&](const auto& batch_ids, uint64_t /*tid*/) {
-                    std::vector<Idx> buffer{};
+                [&](const auto& batch_ids, uint64_t tid) {
+                    auto& buffer = buffers.at(tid);
                     for (auto batch_id : batch_ids) {
                         auto new_id = batch_to_new_id_map[batch_id];
                         auto old_id = new_to_old_id_map[new_id];
-- 
2.43.0


From ce672ae0cbd67536205f97c6d6b4fa7a1b600884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:41 +0000
Subject: [PATCH 13/50] fix: initialise all construction parameters of an
 assembled dynamic index

---
 include/svs/index/vamana/dynamic_index.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/svs/index/vamana/dynamic_index.h b/include/svs/index/vamana/dynamic_index.h
index 3ca6c17..466972f 100644
--- a/include/svs/index/vamana/dynamic_index.h
+++ b/include/svs/index/vamana/dynamic_index.h
@@ -165,7 +165,9 @@ class MutableVamanaIndex {
         , distance_{std::move(distance_function)}
         , threadpool_{std::move(threadpool)}
         , search_parameters_{vamana::construct_default_search_parameters(data_)}
-        , construction_window_size_{2 * graph.max_degree()} {
+        , construction_window_size_{2 * graph_.max_degree()}
+        , max_candidates_{5 * construction_window_size_}
+        , prune_to_{graph_.max_degree()} {
         translator_.insert(external_ids, threads::UnitRange<Idx>(0, external_ids.size()));
     }
 
-- 
2.43.0


From e39d4a98bbf0b19e91838e0182ad143de2ce681a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:52 +0000
Subject: [PATCH 14/50] fix: positions in the dynamic search buffer hold any
 number of deleted candidates

---
 include/svs/index/vamana/dynamic_search_buffer.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/svs/index/vamana/dynamic_search_buffer.h b/include/svs/index/vamana/dynamic_search_buffer.h
index 9b179bb..5db5f77 100644
--- a/include/svs/index/vamana/dynamic_search_buffer.h
+++ b/include/svs/index/vamana/dynamic_search_buffer.h
@@ -75,9 +75,11 @@ template <typename Idx, typename Cmp = std::less<>> class MutableBuffer {
     // Equivalent to the `search_buffer_capacity_` in the traditional search buffer.
     uint16_t valid_capacity_ = 0;
     // Index of the best unvisited candidate.
-    uint16_t best_unvisited_ = 0;
+    // N.B.: The number of invalid candidates (and thus any position) is not bounded by
+    // ``valid_capacity_``.
+    uint32_t best_unvisited_ = 0;
     // One past the "target_valid_"th entry.
-    uint16_t roi_end_ = 0;
+    uint32_t roi_end_ = 0;
     // number of valid neighbors.
     uint16_t valid_ = 0;
     // A buffer of candidates.
@@ -426,7 +428,7 @@ template <typename Idx, typename Cmp = std::less<>> class MutableBuffer {
         size_t i = pos - start;
         valid_ += static_cast<size_t>(neighbor.valid());
         unsafe_insert(neighbor, pos, i);
-        best_unvisited_ = std::min(best_unvisited_, lib::narrow_cast<uint16_t>(i));
+        best_unvisited_ = std::min(best_unvisited_, lib::narrow_cast<uint32_t>(i));
         return i;
     }
 
-- 
2.43.0


From 81128324041e9577361d17238451b1c7c317b4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:28 +0000
Subject: [PATCH 15/50] fix: inserting into an empty search buffer does not
 read before its storage

---
 include/svs/index/vamana/search_buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/svs/index/vamana/search_buffer.h b/include/svs/index/vamana/search_buffer.h
index 3a9b6cf..50f0bd7 100644
--- a/include/svs/index/vamana/search_buffer.h
+++ b/include/svs/index/vamana/search_buffer.h
@@ -296,7 +296,7 @@ template <typename Idx, typename Cmp = std::less<>> class SearchBuffer {
     /// returns ``true``.
     ///
     bool can_skip(float distance) const {
-        return compare_(back().distance(), distance) && full();
+        return full() && compare_(back().distance(), distance);
     }
 
     ///
-- 
2.43.0


From 68636064fdeb1ff34785928b9b2d4a1119077084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:28 +0000
Subject: [PATCH 16/50] fix: clustered search visits the nearest cluster when
 the query lies on its centroid

---
 include/svs/index/inverted/memory_based.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/svs/index/inverted/memory_based.h b/include/svs/index/inverted/memory_based.h
index 23e80dc..aa6c2a4 100644
--- a/include/svs/index/inverted/memory_based.h
+++ b/include/svs/index/inverted/memory_based.h
@@ -415,7 +415,7 @@ template <typename Index, typename Cluster> class InvertedIndex {
 
                     for (size_t j = 0, jmax = scratch_buffer.size(); j < jmax; ++j) {
                         auto candidate = scratch_buffer[j];
-                        if (!compare(candidate.distance(), cutoff_distance)) {
+                        if (compare(cutoff_distance, candidate.distance())) {
                             break;
                         }
 
-- 
2.43.0


From b61a6cff86576a8d464fd3d76e70b23385a7d79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:58 +0000
Subject: [PATCH 17/50] fix: clustered search uses the primary search
 parameters it is given

---
 include/svs/index/inverted/memory_based.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/svs/index/inverted/memory_based.h b/include/svs/index/inverted/memory_based.h
index aa6c2a4..f8976a4 100644
--- a/include/svs/index/inverted/memory_based.h
+++ b/include/svs/index/inverted/memory_based.h
@@ -385,7 +385,7 @@ template <typename Index, typename Cluster> class InvertedIndex {
                 size_t num_neighbors = results.n_neighbors();
 
                 // Allocate scratch space to use the externally threaded
-                auto scratch = index_.scratchspace();
+                auto scratch = index_.scratchspace(search_parameters.primary_parameters_);
                 if (scratch.buffer.capacity() == 0) {
                     scratch.buffer.change_maxsize(1);
                 }
-- 
2.43.0


From 8adebfb5d11c4b7c597f21ad67c2b99942beb45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:35 +0000
Subject: [PATCH 18/50] fix: clustered index accepts centroid selections in any
 order

---
 include/svs/index/inverted/memory_based.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/svs/index/inverted/memory_based.h b/include/svs/index/inverted/memory_based.h
index f8976a4..f5c22ee 100644
--- a/include/svs/index/inverted/memory_based.h
+++ b/include/svs/index/inverted/memory_based.h
@@ -533,6 +533,9 @@ auto auto_build(
     auto centroids =
         centroid_picker(data, parameters.clustering_parameters_, threadpool.size());
 
+    // The clusters are stored in the order of their centroid ids.
+    std::sort(centroids.begin(), centroids.end());
+
     // Build Primary Index.
     auto index = build_primary_index(
         data,
-- 
2.43.0


From 4b47ac31b11d34cef004716e1eda513d152fb104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:24 +0000
Subject: [PATCH 19/50] fix: clustering accepts vectors whose best inner
 product is not positive

---
 include/svs/index/inverted/common.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/svs/index/inverted/common.h b/include/svs/index/inverted/common.h
index 2e64dde..89372b8 100644
--- a/include/svs/index/inverted/common.h
+++ b/include/svs/index/inverted/common.h
@@ -35,9 +35,8 @@ template <typename T> inline T bound_with(T nearest, T epsilon, svs::DistanceL2)
 }
 
 template <typename T> inline T bound_with(T nearest, T epsilon, svs::DistanceIP) {
-    // TODO: What do we do if the best match is simply bad?
-    assert(nearest > 0.0f);
-    return nearest / (1 + epsilon);
+    // When even the best match is negative, scaling it down loosens the bound.
+    return nearest > 0 ? nearest / (1 + epsilon) : nearest * (1 + epsilon);
 }
 
 } // namespace svs::index::inverted
-- 
2.43.0


From b505dc3a22ebf24b4da46cd8aeff8bd3929a12e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:08 +0000
Subject: [PATCH 20/50] fix: clustered index of a small data set has at least
 one centroid

---
 include/svs/index/inverted/memory_based.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/svs/index/inverted/memory_based.h b/include/svs/index/inverted/memory_based.h
index f5c22ee..3ff4203 100644
--- a/include/svs/index/inverted/memory_based.h
+++ b/include/svs/index/inverted/memory_based.h
@@ -26,7 +26,10 @@ namespace svs::index::inverted {
 
 namespace detail {
 inline size_t get_number_of_centroids(size_t datasize, lib::Percent percent_centroids) {
-    return lib::narrow_cast<size_t>(std::floor(datasize * percent_centroids.value()));
+    // Small datasets still need at least one centroid.
+    return std::max<size_t>(
+        lib::narrow_cast<size_t>(std::floor(datasize * percent_centroids.value())), 1
+    );
 }
 } // namespace detail
 
-- 
2.43.0


From cca31996bb4d013ace09aa2b07bfac02f614b9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:50 +0000
Subject: [PATCH 21/50] fix: opening a file raises an error when the file
 cannot be opened

---
 include/svs/lib/file.h | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/svs/lib/file.h b/include/svs/lib/file.h
index f267f7c..58f0641 100644
--- a/include/svs/lib/file.h
+++ b/include/svs/lib/file.h
@@ -72,6 +72,14 @@ inline bool check_file(const std::filesystem::path& path, std::ios_base::openmod
 
 namespace detail {
 template <typename T> void check_stream(const T& /*x*/) {}
+
+// Constructing a stream reports a failure to open the file only through its state.
+template <typename Stream>
+void check_open(const Stream& stream, const std::filesystem::path& path) {
+    if (!stream.is_open()) {
+        throw ANNEXCEPTION("Could not open file {}!", path);
+    }
+}
 } // namespace detail
 
 namespace file_flags {
@@ -88,21 +96,27 @@ static constexpr std::ios_base::openmode open_read =
 inline std::fstream
 open(const std::filesystem::path& path, std::ios_base::openmode mode = file_flags::open) {
     check_file(path, mode);
-    return std::fstream(path, mode);
+    auto stream = std::fstream(path, mode);
+    detail::check_open(stream, path);
+    return stream;
 }
 
 inline std::ofstream open_write(
     const std::filesystem::path& path, std::ios_base::openmode mode = file_flags::open_write
 ) {
     check_file(path, mode);
-    return std::ofstream(path, mode);
+    auto stream = std::ofstream(path, mode);
+    detail::check_open(stream, path);
+    return stream;
 }
 
 inline std::ifstream open_read(
     const std::filesystem::path& path, std::ios_base::openmode mode = file_flags::open_read
 ) {
     check_file(path, mode);
-    return std::ifstream(path, mode);
+    auto stream = std::ifstream(path, mode);
+    detail::check_open(stream, path);
+    return stream;
 }
 
 } // namespace svs::lib
-- 
2.43.0


From 7de3c09ba802a8c5256dbb61bad39428c19e0b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:15 +0000
Subject: [PATCH 22/50] fix: saving raises an error when not everything could
 be written

---
 include/svs/core/data/io.h              |  1 +
 include/svs/core/io/binary.h            |  5 ++++-
 include/svs/core/io/native.h            | 24 ++++++++++++++++++++----
 include/svs/core/io/vecs.h              |  5 ++++-
 include/svs/core/query_result.h         |  1 +
 include/svs/core/translation.h          |  1 +
 include/svs/index/inverted/clustering.h |  1 +
 include/svs/lib/file.h                  | 23 +++++++++++++++++++++++
 include/svs/lib/readwrite.h             | 12 +++++++++++-
 include/svs/lib/saveload/bootstrap.h    |  1 +
 include/svs/lib/saveload/save.h         |  1 +
 11 files changed, 68 insertions(+), 7 deletions(-)

diff --git a/include/svs/core/data/io.h b/include/svs/core/data/io.h
index 54ee777..4a4c35a 100644
--- a/include/svs/core/data/io.h
+++ b/include/svs/core/data/io.h
@@ -107,6 +107,7 @@ void save(
     for (size_t i = 0; i < data.size(); ++i) {
         writer << accessor.get(data, i);
     }
+    writer.close();
 }
 
 template <data::ImmutableMemoryDataset Dataset, typename File>
diff --git a/include/svs/core/io/binary.h b/include/svs/core/io/binary.h
index d3ea7bd..f8d2a4b 100644
--- a/include/svs/core/io/binary.h
+++ b/include/svs/core/io/binary.h
@@ -151,7 +151,10 @@ template <typename T = void> class BinaryWriter {
 
     template <typename U> BinaryWriter& operator<<(U&& v) { return append(v); }
 
-    void flush() { stream_.flush(); }
+    void flush() { lib::flush_written(stream_); }
+
+    /// Close the file. Throws an ``ANNException`` if anything could not be written.
+    void close() { lib::close_written(stream_); }
 
   private:
     Header header_;
diff --git a/include/svs/core/io/native.h b/include/svs/core/io/native.h
index 230593b..2956258 100644
--- a/include/svs/core/io/native.h
+++ b/include/svs/core/io/native.h
@@ -376,21 +376,33 @@ template <typename T = void> class Writer {
 
     template <typename U> Writer& operator<<(U&& v) { return append(std::forward<U>(v)); }
 
-    void flush() { stream_.flush(); }
+    void flush() { lib::flush_written(stream_); }
 
     void writeheader(bool resume = true) {
         auto position = stream_.tellp();
         // Write to the header the number of vectors actually written.
         stream_.seekp(0);
-        assert(stream_.good());
         lib::write_binary(stream_, Header(vectors_written_, dimension_, uuid_));
         if (resume) {
             stream_.seekp(position, std::ofstream::beg);
         }
     }
 
+    ///
+    /// @brief Write the final header and close the file.
+    ///
+    /// Throws an ``ANNException`` if anything could not be written. No more vectors can be
+    /// appended afterwards.
+    ///
+    void close() {
+        if (stream_.is_open()) {
+            writeheader(false);
+            lib::close_written(stream_);
+        }
+    }
+
     // We want a custom destructor in order to write the header with the correct
-    // number of vectors.
+    // number of vectors. A destructor cannot report errors: use ``close`` for that.
     //
     // Because we're implementing a custom destructor, we also need to define the
     // special member functions.
@@ -403,7 +415,11 @@ template <typename T = void> class Writer {
     Writer& operator=(Writer&&) = delete;
 
     // Write the header for the file.
-    ~Writer() noexcept { writeheader(); }
+    ~Writer() noexcept {
+        try {
+            close();
+        } catch (...) {}
+    }
 
   private:
     size_t dimension_;
diff --git a/include/svs/core/io/vecs.h b/include/svs/core/io/vecs.h
index 85a13f3..2539f97 100644
--- a/include/svs/core/io/vecs.h
+++ b/include/svs/core/io/vecs.h
@@ -210,7 +210,10 @@ template <typename T = void> class VecsWriter {
 
     template <typename U> VecsWriter& operator<<(U&& v) { return append(v); }
 
-    void flush() { stream_.flush(); }
+    void flush() { lib::flush_written(stream_); }
+
+    /// Close the file. Throws an ``ANNException`` if anything could not be written.
+    void close() { lib::close_written(stream_); }
 
   private:
     size_t dimension_;
diff --git a/include/svs/core/query_result.h b/include/svs/core/query_result.h
index 745d0cf..89e6cdc 100644
--- a/include/svs/core/query_result.h
+++ b/include/svs/core/query_result.h
@@ -27,6 +27,7 @@ void save_vecs(DenseArray<I, Dims, Base>& matrix, const std::string& filename) {
     for (size_t i = 0; i < getsize<0>(matrix); ++i) {
         writer << matrix.slice(i);
     }
+    writer.close();
 }
 } // namespace detail
 
diff --git a/include/svs/core/translation.h b/include/svs/core/translation.h
index cbb50e7..1c0215c 100644
--- a/include/svs/core/translation.h
+++ b/include/svs/core/translation.h
@@ -340,6 +340,7 @@ class IDTranslator {
             lib::write_binary(stream, i->first);
             lib::write_binary(stream, i->second);
         }
+        lib::close_written(stream);
         return lib::SaveTable(
             serialization_schema,
             save_version,
diff --git a/include/svs/index/inverted/clustering.h b/include/svs/index/inverted/clustering.h
index d8b9018..68c5f84 100644
--- a/include/svs/index/inverted/clustering.h
+++ b/include/svs/index/inverted/clustering.h
@@ -575,6 +575,7 @@ template <std::integral I> class Clustering {
             for (auto& cluster : *this) {
                 filesize += cluster.second.serialize(io);
             }
+            lib::close_written(io);
         }
 
         return lib::SaveTable(
diff --git a/include/svs/lib/file.h b/include/svs/lib/file.h
index 58f0641..2790758 100644
--- a/include/svs/lib/file.h
+++ b/include/svs/lib/file.h
@@ -119,4 +119,27 @@ inline std::ifstream open_read(
     return stream;
 }
 
+///
+/// @brief Flush a stream that was written to.
+///
+/// Throws an ``ANNException`` if anything written to the stream did not reach the file.
+///
+template <typename Stream> void flush_written(Stream& stream) {
+    if (!stream.flush()) {
+        throw ANNEXCEPTION("Could not write all contents of a file!");
+    }
+}
+
+///
+/// @brief Close a stream that was written to.
+///
+/// Throws an ``ANNException`` if anything written to the stream did not reach the file.
+///
+template <typename Stream> void close_written(Stream& stream) {
+    stream.close();
+    if (!stream) {
+        throw ANNEXCEPTION("Could not write all contents of a file!");
+    }
+}
+
 } // namespace svs::lib
diff --git a/include/svs/lib/readwrite.h b/include/svs/lib/readwrite.h
index 320535c..7572466 100644
--- a/include/svs/lib/readwrite.h
+++ b/include/svs/lib/readwrite.h
@@ -11,6 +11,10 @@
 
 #pragma once
 
+// svs
+#include "svs/lib/exception.h"
+
+// stl
 #include <span>
 #include <type_traits>
 #include <vector>
@@ -131,8 +135,14 @@ struct BinaryWriter<Stream, std::vector<T, Allocator>> {
 /// * Any ``std::is_trivially_copyable`` type.
 /// * A ``std::vector`` or ``std::span`` of such types.
 ///
+/// Throws an ``ANNException`` if the stream could not accept all bytes.
+///
 template <typename T, typename Stream> size_t write_binary(Stream& stream, const T& val) {
-    return BinaryWriter<Stream, T>::call(stream, val);
+    auto bytes = BinaryWriter<Stream, T>::call(stream, val);
+    if (!stream) {
+        throw ANNEXCEPTION("Could not write {} bytes!", bytes);
+    }
+    return bytes;
 }
 } // namespace lib
 } // namespace svs
diff --git a/include/svs/lib/saveload/bootstrap.h b/include/svs/lib/saveload/bootstrap.h
index 5a065a1..f6436ad 100644
--- a/include/svs/lib/saveload/bootstrap.h
+++ b/include/svs/lib/saveload/bootstrap.h
@@ -252,6 +252,7 @@ class BinaryBlobSaver : private BinaryBlobSerializer {
         {
             auto ostream = lib::open_write(path);
             bytes_written += lib::write_binary(ostream, data_);
+            lib::close_written(ostream);
         }
 
         return SaveTable(
diff --git a/include/svs/lib/saveload/save.h b/include/svs/lib/saveload/save.h
index ada8024..59d7250 100644
--- a/include/svs/lib/saveload/save.h
+++ b/include/svs/lib/saveload/save.h
@@ -312,6 +312,7 @@ void save_node_to_file(
     );
     auto file = svs::lib::open_write(path, std::ios_base::out);
     file << top_table << "\n";
+    lib::close_written(file);
 }
 } // namespace detail
 
-- 
2.43.0


From a13221723485b7bb91b8ee119f7037c98d3ce24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:15 +0000
Subject: [PATCH 23/50] fix: empty blobs, translations and clusterings can be
 loaded again

---
 include/svs/core/translation.h          | 4 ++++
 include/svs/index/inverted/clustering.h | 5 +++++
 include/svs/lib/saveload/bootstrap.h    | 3 ++-
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/svs/core/translation.h b/include/svs/core/translation.h
index 1c0215c..0903eb2 100644
--- a/include/svs/core/translation.h
+++ b/include/svs/core/translation.h
@@ -371,6 +371,10 @@ class IDTranslator {
         auto num_points = lib::load_at<size_t>(table, "num_points");
         auto translator = IDTranslator{};
         auto resolved = table.resolve_at("filename");
+        // The file of an empty translation is empty, which ``open_read`` does not accept.
+        if (num_points == 0) {
+            return translator;
+        }
         auto stream = lib::open_read(resolved);
         for (size_t i = 0; i < num_points; ++i) {
             auto external_id = lib::read_binary<external_id_type>(stream);
diff --git a/include/svs/index/inverted/clustering.h b/include/svs/index/inverted/clustering.h
index 68c5f84..a64fbdb 100644
--- a/include/svs/index/inverted/clustering.h
+++ b/include/svs/index/inverted/clustering.h
@@ -614,6 +614,11 @@ template <std::integral I> class Clustering {
                 );
             }
 
+            // The file of an empty clustering is empty, which ``open_read`` does not accept.
+            if (num_clusters == 0) {
+                return clustering;
+            }
+
             auto io = lib::open_read(file);
             for (size_t i = 0; i < num_clusters; ++i) {
                 clustering.insert(Cluster<I>::deserialize(io));
diff --git a/include/svs/lib/saveload/bootstrap.h b/include/svs/lib/saveload/bootstrap.h
index f6436ad..479d062 100644
--- a/include/svs/lib/saveload/bootstrap.h
+++ b/include/svs/lib/saveload/bootstrap.h
@@ -312,7 +312,8 @@ class BinaryBlobLoader : private BinaryBlobSerializer {
             table.context().resolve(load_at<std::filesystem::path>(table, "filename"));
 
         auto loader = BinaryBlobLoader(num_elements, allocator);
-        {
+        // The file of an empty blob is empty, which ``open_read`` does not accept.
+        if (num_elements != 0) {
             auto istream = lib::open_read(filename);
             lib::read_binary(istream, loader.data_);
         }
-- 
2.43.0


From 5ccb5ed534a2609fc32c8d87e79052fd92e8277f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:49 +0000
Subject: [PATCH 24/50] fix: files that cannot be identified do not prevent
 finding a file by identifier

---
 include/svs/core/io/native.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/svs/core/io/native.h b/include/svs/core/io/native.h
index 2956258..fd2699c 100644
--- a/include/svs/core/io/native.h
+++ b/include/svs/core/io/native.h
@@ -711,7 +711,15 @@ find_uuid(const std::filesystem::path& dir, const lib::UUID& uuid) {
             continue;
         }
 
-        auto maybe_uuid = get_uuid(entry);
+        // A file that cannot be identified (because it is empty, too short or unreadable)
+        // is not the one we are looking for and must not prevent finding it.
+        auto maybe_uuid = std::optional<lib::UUID>();
+        try {
+            maybe_uuid = get_uuid(entry);
+        } catch (const ANNException&) {
+            continue;
+        }
+
         if (maybe_uuid == uuid) {
             return entry.path();
         }
-- 
2.43.0


From 104657a1c3f2ab37c592cea018c8a9cd77026289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:23 +0000
Subject: [PATCH 25/50] fix: vecs files are loaded with the element size that
 is asked for

---
 include/svs/core/data/io.h |  2 +-
 include/svs/core/io/vecs.h | 14 +++++++++++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/svs/core/data/io.h b/include/svs/core/data/io.h
index 4a4c35a..d879a3a 100644
--- a/include/svs/core/data/io.h
+++ b/include/svs/core/data/io.h
@@ -196,7 +196,7 @@ auto_load(const std::filesystem::path& filename, const F& construct) {
         return load_dataset(io::NativeFile(filename), construct);
     }
     if (sv.ends_with("vecs")) {
-        return load_dataset(io::vecs::VecsFile(filename), construct);
+        return load_dataset(io::vecs::VecsFile(filename, sizeof(T)), construct);
     }
     if (sv.ends_with("bin")) {
         return load_dataset(io::binary::BinaryFile(filename), construct);
diff --git a/include/svs/core/io/vecs.h b/include/svs/core/io/vecs.h
index 2539f97..e86b7f3 100644
--- a/include/svs/core/io/vecs.h
+++ b/include/svs/core/io/vecs.h
@@ -230,9 +230,16 @@ class VecsFile {
 
     VecsFile() = default;
 
+    ///
     /// Construct a file reference for the given path.
-    explicit VecsFile(std::filesystem::path path)
-        : path_{std::move(path)} {}
+    ///
+    /// @param path The path of the file.
+    /// @param elsize_hint (optional) Element size in bytes. The format does not record it
+    ///     and without a hint it can only be guessed.
+    ///
+    explicit VecsFile(std::filesystem::path path, size_t elsize_hint = 0)
+        : path_{std::move(path)}
+        , elsize_hint_{elsize_hint} {}
 
     ///
     /// @brief Open the file for reading and return an interactive reader for the file.
@@ -259,11 +266,12 @@ class VecsFile {
     /// @param elsize_hint (optional)  Element size in bytes
     ///
     std::pair<size_t, size_t> get_dims(size_t elsize_hint = 0) const {
-        return vecs::get_dims(path_, elsize_hint);
+        return vecs::get_dims(path_, elsize_hint == 0 ? elsize_hint_ : elsize_hint);
     }
 
   private:
     std::filesystem::path path_;
+    size_t elsize_hint_ = 0;
 };
 
 } // namespace vecs
-- 
2.43.0


From ea3cdd17ec4b6ffb73008fd7822aa2a3d9c70837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:04 +0000
Subject: [PATCH 26/50] fix: reading a truncated or unreadable file raises an
 error

---
 include/svs/core/io/binary.h | 10 ++++++++--
 include/svs/core/io/native.h | 10 +++++++++-
 include/svs/lib/readwrite.h  |  5 +++++
 3 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/include/svs/core/io/binary.h b/include/svs/core/io/binary.h
index f8d2a4b..fdeab03 100644
--- a/include/svs/core/io/binary.h
+++ b/include/svs/core/io/binary.h
@@ -51,8 +51,14 @@ get_dims(std::ifstream& stream, std::string_view source = {}, size_t elsize_hint
     size_t filesize_minus_header = filesize - sizeof(header);
     size_t n_vec_elements =
         lib::narrow<size_t>(header.num_vectors) * lib::narrow<size_t>(header.vector_dim);
-    size_t remainder = filesize_minus_header % n_vec_elements;
-    size_t deduced_elsize = filesize_minus_header / n_vec_elements;
+    // Without any elements, there is nothing to deduce the element size from.
+    if (n_vec_elements == 0 && filesize_minus_header == 0) {
+        return std::make_pair(header.num_vectors, header.vector_dim);
+    }
+    size_t remainder =
+        n_vec_elements == 0 ? filesize_minus_header : filesize_minus_header % n_vec_elements;
+    size_t deduced_elsize =
+        n_vec_elements == 0 ? 0 : filesize_minus_header / n_vec_elements;
 
     bool elsize_match = elsize_hint == 0 ? true : elsize_hint == deduced_elsize;
 
diff --git a/include/svs/core/io/native.h b/include/svs/core/io/native.h
index fd2699c..d4cab62 100644
--- a/include/svs/core/io/native.h
+++ b/include/svs/core/io/native.h
@@ -565,8 +565,16 @@ using FileMetadata = std::variant<vtest::Header, v1::Header, database::Header>;
 /// The stream must have recently been opened and pointing to the beginning of a file.
 /// This function will not attempt to adjust the read position of the stream.
 ///
+/// A file that is too short to contain a magic number yields zero, which does not belong to
+/// any schema. Throws an ``ANNException`` if the stream cannot be read.
+///
 inline uint64_t get_magic_number(std::ifstream& stream) {
-    return lib::read_binary<uint64_t>(stream);
+    auto magic = uint64_t{0};
+    stream.read(reinterpret_cast<char*>(&magic), sizeof(magic));
+    if (stream.bad()) {
+        throw ANNEXCEPTION("Could not read the magic number of a file!");
+    }
+    return stream ? magic : 0;
 }
 
 ///
diff --git a/include/svs/lib/readwrite.h b/include/svs/lib/readwrite.h
index 7572466..4f793c4 100644
--- a/include/svs/lib/readwrite.h
+++ b/include/svs/lib/readwrite.h
@@ -61,8 +61,13 @@ struct BinaryReader<Stream, std::vector<T, Alloc>> {
 ///   Each element of the vector will be populated as if by recursively calling
 ///   ``svs::lib::read_binary`` on each element beginning from the beginning.
 ///
+/// Throws an ``ANNException`` if the stream could not provide all bytes.
+///
 template <typename T, typename Stream> void read_binary(Stream& stream, T& x) {
     BinaryReader<Stream, T>::call(stream, x);
+    if (!stream) {
+        throw ANNEXCEPTION("Could not read all bytes of a binary object!");
+    }
 }
 
 ///
-- 
2.43.0


From ca608f19186f200ffb44c8f4e3900dead0822fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:04 +0000
Subject: [PATCH 27/50] fix: translations and blobs are only loaded from files
 of the recorded size

---
 include/svs/core/translation.h       | 11 +++++++++++
 include/svs/lib/saveload/bootstrap.h | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/include/svs/core/translation.h b/include/svs/core/translation.h
index 0903eb2..2f3e6ca 100644
--- a/include/svs/core/translation.h
+++ b/include/svs/core/translation.h
@@ -371,6 +371,17 @@ class IDTranslator {
         auto num_points = lib::load_at<size_t>(table, "num_points");
         auto translator = IDTranslator{};
         auto resolved = table.resolve_at("filename");
+        constexpr size_t bytes_per_point =
+            sizeof(external_id_type) + sizeof(internal_id_type);
+        if (auto bytes = std::filesystem::file_size(resolved);
+            bytes % bytes_per_point != 0 || bytes / bytes_per_point != num_points) {
+            throw ANNEXCEPTION(
+                "Expected {} translations in {} but it has {} bytes!",
+                num_points,
+                resolved,
+                bytes
+            );
+        }
         // The file of an empty translation is empty, which ``open_read`` does not accept.
         if (num_points == 0) {
             return translator;
diff --git a/include/svs/lib/saveload/bootstrap.h b/include/svs/lib/saveload/bootstrap.h
index 479d062..9cea975 100644
--- a/include/svs/lib/saveload/bootstrap.h
+++ b/include/svs/lib/saveload/bootstrap.h
@@ -311,6 +311,17 @@ class BinaryBlobLoader : private BinaryBlobSerializer {
         auto filename =
             table.context().resolve(load_at<std::filesystem::path>(table, "filename"));
 
+        if (auto bytes = std::filesystem::file_size(filename);
+            bytes % sizeof(T) != 0 || bytes / sizeof(T) != num_elements) {
+            throw ANNEXCEPTION(
+                "Expected {} elements of size {} in {} but it has {} bytes!",
+                num_elements,
+                sizeof(T),
+                filename,
+                bytes
+            );
+        }
+
         auto loader = BinaryBlobLoader(num_elements, allocator);
         // The file of an empty blob is empty, which ``open_read`` does not accept.
         if (num_elements != 0) {
-- 
2.43.0


From 7354a61a22c2d125b5b21f8397f3ea4b78dc44fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:17 +0000
Subject: [PATCH 28/50] fix: a native file without its final header is not
 mistaken for a complete one

---
 include/svs/core/io/native.h | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/svs/core/io/native.h b/include/svs/core/io/native.h
index d4cab62..ebe9676 100644
--- a/include/svs/core/io/native.h
+++ b/include/svs/core/io/native.h
@@ -28,6 +28,7 @@
 #include <string>
 #include <tuple>
 #include <type_traits>
+#include <utility>
 
 namespace svs {
 namespace io {
@@ -349,9 +350,12 @@ template <typename T = void> class Writer {
         : dimension_{dimension}
         , uuid_{uuid}
         , stream_{lib::open_write(path, std::ofstream::out | std::ofstream::binary)} {
-        // Write a temporary header.
+        // Write a temporary header. It has no magic number, so what has been written so far
+        // cannot be mistaken for a complete file.
         stream_.seekp(0, std::ofstream::beg);
-        lib::write_binary(stream_, Header());
+        auto header = Header();
+        header.magic_ = 0;
+        lib::write_binary(stream_, header);
     }
 
     size_t dimensions() const { return dimension_; }
@@ -381,8 +385,14 @@ template <typename T = void> class Writer {
     void writeheader(bool resume = true) {
         auto position = stream_.tellp();
         // Write to the header the number of vectors actually written.
+        // The magic number declares the file complete and is written last.
+        auto header = Header(vectors_written_, dimension_, uuid_);
+        auto magic = std::exchange(header.magic_, 0);
         stream_.seekp(0);
-        lib::write_binary(stream_, Header(vectors_written_, dimension_, uuid_));
+        lib::write_binary(stream_, header);
+        lib::flush_written(stream_);
+        stream_.seekp(0);
+        lib::write_binary(stream_, magic);
         if (resume) {
             stream_.seekp(position, std::ofstream::beg);
         }
-- 
2.43.0


From 0af10412d69b059d5e23470e9e0229542fa89c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:56 +0000
Subject: [PATCH 29/50] fix: a configuration file is complete or absent

---
 include/svs/lib/saveload/save.h | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/svs/lib/saveload/save.h b/include/svs/lib/saveload/save.h
index 59d7250..c851da2 100644
--- a/include/svs/lib/saveload/save.h
+++ b/include/svs/lib/saveload/save.h
@@ -21,6 +21,7 @@
 
 // stl
 #include <filesystem>
+#include <system_error>
 
 namespace svs::lib {
 
@@ -310,9 +311,20 @@ void save_node_to_file(
     auto top_table = toml::table(
         {{config_version_key, version.str()}, {config_object_key, SVS_FWD(node)}}
     );
-    auto file = svs::lib::open_write(path, std::ios_base::out);
-    file << top_table << "\n";
-    lib::close_written(file);
+    // A configuration that is cut short can still be well formed.
+    // So, write it to another file and move that into place when it is complete.
+    auto partial = path;
+    partial += ".partial";
+    try {
+        auto file = svs::lib::open_write(partial, std::ios_base::out);
+        file << top_table << "\n";
+        lib::close_written(file);
+        std::filesystem::rename(partial, path);
+    } catch (...) {
+        auto ignored = std::error_code();
+        std::filesystem::remove(partial, ignored);
+        throw;
+    }
 }
 } // namespace detail
 
-- 
2.43.0


From 86001dd321b0278ea7b35232cba633936f926922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:45 +0000
Subject: [PATCH 30/50] fix: a configuration file that is cut short is not
 loaded

---
 include/svs/lib/saveload/load.h | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/svs/lib/saveload/load.h b/include/svs/lib/saveload/load.h
index c672764..5d61805 100644
--- a/include/svs/lib/saveload/load.h
+++ b/include/svs/lib/saveload/load.h
@@ -14,6 +14,9 @@
 // saveload
 #include "svs/lib/saveload/core.h"
 
+// svs
+#include "svs/lib/file.h"
+
 // stl
 #include <filesystem>
 
@@ -815,8 +818,19 @@ check_global_version(lib::Version version, const std::filesystem::path& source)
     }
 }
 
+// Every saved configuration ends with a newline. If that is missing, the file has been cut
+// short, possibly within its last value where the remains are still well formed.
+inline toml::table parse_configuration(const std::filesystem::path& fullpath) {
+    auto stream = lib::open_read(fullpath);
+    stream.seekg(-1, std::ios_base::end);
+    if (stream.get() != '\n') {
+        throw ANNEXCEPTION("Configuration file {} is incomplete!", fullpath);
+    }
+    return toml::parse_file(fullpath.c_str());
+}
+
 inline SerializedObject begin_deserialization(const std::filesystem::path& fullpath) {
-    auto table = toml::parse_file(fullpath.c_str());
+    auto table = parse_configuration(fullpath);
     auto version = get_version(table, config_version_key);
     svs::lib::detail::check_global_version(version, fullpath);
     return SerializedObject{
@@ -836,7 +850,7 @@ inline SerializedObject begin_deserialization(const std::filesystem::path& path)
 
 inline ContextFreeSerializedObject
 begin_context_free_deserialization(const std::filesystem::path& fullpath) {
-    auto table = toml::parse_file(fullpath.c_str());
+    auto table = detail::parse_configuration(fullpath);
     auto version = get_version(table, config_version_key);
     svs::lib::detail::check_global_version(version, fullpath);
     return ContextFreeSerializedObject{std::move(table)};
-- 
2.43.0


From 76911b325554b2814aa8973d6e90c6e1a2276c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:01 +0000
Subject: [PATCH 31/50] fix: pool workers do not need memory to shut down or to
 report an exception

---
 include/svs/lib/threads/thread.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/svs/lib/threads/thread.h b/include/svs/lib/threads/thread.h
index f240678..5e7373e 100644
--- a/include/svs/lib/threads/thread.h
+++ b/include/svs/lib/threads/thread.h
@@ -721,7 +721,7 @@ template <typename Telemetry = telemetry::NoTelemetry> class ThreadControlBlock
             if (request == ThreadState::RequestShutdown) {
                 // Failure to successfully assign the promise is a program bug.
                 try {
-                    promise.set_value_at_thread_exit();
+                    promise.set_value();
                 } catch (...) { std::terminate(); }
                 set_state(ThreadState::Shutdown);
                 return;
@@ -735,15 +735,17 @@ template <typename Telemetry = telemetry::NoTelemetry> class ThreadControlBlock
             } catch (...) {
                 set_state(ThreadState::Exception);
 
-                // `set_exception_at_thread_exit` can throw an exception.
+                // `set_exception` can throw an exception.
                 // However, those exceptions are either because:
                 // 1. There is no shared state.
                 // 2. A result or exception has already been put in the promise.
                 //
                 // Both of those should be considered errors so we take down the whole
                 // program.
+                //
+                // Unlike `set_exception_at_thread_exit`, this does not allocate memory.
                 try {
-                    promise.set_exception_at_thread_exit(std::current_exception());
+                    promise.set_exception(std::current_exception());
                 } catch (...) { std::terminate(); }
                 return;
             }
-- 
2.43.0


From 195cb054791ff920604e0eacb9e4783ddc27294f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:19 +0000
Subject: [PATCH 32/50] fix: a thread pool run waits for its workers even if
 there is no memory for the error message

---
 include/svs/lib/threads/threadpool.h | 29 +++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/include/svs/lib/threads/threadpool.h b/include/svs/lib/threads/threadpool.h
index 3af0ffb..3ddcd01 100644
--- a/include/svs/lib/threads/threadpool.h
+++ b/include/svs/lib/threads/threadpool.h
@@ -16,6 +16,7 @@
 #include <atomic>
 #include <concepts>
 #include <cstdint>
+#include <exception>
 #include <mutex>
 #include <sstream>
 #include <vector>
@@ -194,17 +195,13 @@ template <typename Builder> class NativeThreadPoolBase {
             threads_[i].assign({f, i + 1});
         }
         // Run on the main function.
-        bool failed = false;
-        auto message = std::string{};
+        // Keep the exception rather than its message: nothing may throw until all workers
+        // are done with the job.
+        auto main_exception = std::exception_ptr{};
         try {
             f(0);
-        } catch (const std::exception& error) {
-            failed = true;
-            message = error.what();
-        } catch (...) {
-            failed = true;
-            message = unknown_exception();
-        }
+        } catch (...) { main_exception = std::current_exception(); }
+        bool failed = (main_exception != nullptr);
 
         // Wait until all threads are done.
         // If any thread fails, then we're throwing.
@@ -213,7 +210,7 @@ template <typename Builder> class NativeThreadPoolBase {
             failed = failed || !thread.is_okay();
         }
         if (failed) {
-            manage_exception_during_run(message);
+            manage_exception_during_run(main_exception);
         }
     }
 
@@ -234,11 +231,17 @@ template <typename Builder> class NativeThreadPoolBase {
     }
 
     // Pre-condition: No thread is working.
-    void manage_exception_during_run(const std::string& thread_0_message) {
+    void manage_exception_during_run(const std::exception_ptr& main_exception) {
         auto message = std::string{};
         auto inserter = std::back_inserter(message);
-        if (!thread_0_message.empty()) {
-            fmt::format_to(inserter, "Thread 0: {}\n", thread_0_message);
+        if (main_exception) {
+            try {
+                std::rethrow_exception(main_exception);
+            } catch (const std::exception& error) {
+                fmt::format_to(inserter, "Thread 0: {}\n", error.what());
+            } catch (...) {
+                fmt::format_to(inserter, "Thread 0: {}\n", unknown_exception());
+            }
         }
 
         // Manage all other exceptions thrown, restarting crashed threads.
-- 
2.43.0


From b5ca25de5380974e362d3df5d9ed45c4d1697a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:19 +0000
Subject: [PATCH 33/50] fix: a huge page allocation that cannot be recorded is
 unmapped

---
 include/svs/core/allocator.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/svs/core/allocator.h b/include/svs/core/allocator.h
index d97dbbe..02d06a9 100644
--- a/include/svs/core/allocator.h
+++ b/include/svs/core/allocator.h
@@ -131,7 +131,12 @@ class GenericHugepageAllocator {
         auto [ptr, sz] = hugepage_mmap(bytes, SVS_FWD(args)...);
         {
             std::lock_guard lock{mutex_};
-            ptr_to_size_.insert({ptr, sz});
+            try {
+                ptr_to_size_.insert({ptr, sz});
+            } catch (...) {
+                [[maybe_unused]] bool unmapped = hugepage_unmap(ptr, sz);
+                throw;
+            }
         }
         return ptr;
     }
-- 
2.43.0


From 162f6da66a912019a6bc3b8c74bf03b213d139b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:02 +0000
Subject: [PATCH 34/50] fix: assigning to an array keeps its contents if there
 is no memory for the copy

---
 include/svs/lib/array.h | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/include/svs/lib/array.h b/include/svs/lib/array.h
index 840abcb..01ec5a1 100644
--- a/include/svs/lib/array.h
+++ b/include/svs/lib/array.h
@@ -356,18 +356,27 @@ template <typename T, typename Dims, typename Alloc = lib::Allocator<T>> class D
             //
             // We *could* add an optimization where both the source and the destination
             // are exactly the same size.
-            if (pointer_ != nullptr) {
-                tear_down();
-            }
+            //
+            // Allocate first: if that fails, the current instance is left unchanged.
+            pointer new_pointer = nullptr;
             // Conditionally propagate the other's allocator.
             if constexpr (atraits::propagate_on_container_copy_assignment::value) {
+                auto old_allocator = allocator_;
                 allocator_ = other.allocator_;
+                try {
+                    new_pointer = atraits::allocate(allocator_, other.size());
+                } catch (...) {
+                    allocator_ = old_allocator;
+                    throw;
+                }
+                tear_down(old_allocator);
+            } else {
+                new_pointer = atraits::allocate(allocator_, other.size());
+                tear_down(allocator_);
             }
-            // Copy over the dimensions.
+            // Copy over the dimensions and the contents.
+            pointer_ = new_pointer;
             dims_ = other.dims_;
-            size_t sz = size();
-            // Allocate and copy contents.
-            pointer_ = atraits::allocate(allocator_, sz);
             assign(other.begin(), other.end());
         }
         return *this;
@@ -451,12 +460,16 @@ template <typename T, typename Dims, typename Alloc = lib::Allocator<T>> class D
     DenseArray<const T, Dims, View<const T>> view() const { return cview(); }
 
   private:
-    void tear_down() noexcept {
+    void tear_down() noexcept { tear_down(allocator_); }
+    void tear_down(allocator_type& allocator) noexcept {
+        if (pointer_ == nullptr) {
+            return;
+        }
         size_t sz = size();
         for (pointer p = pointer_, e = pointer_ + sz; p != e; ++p) {
-            atraits::destroy(allocator_, std::to_address(p));
+            atraits::destroy(allocator, std::to_address(p));
         }
-        atraits::deallocate(allocator_, pointer_, sz);
+        atraits::deallocate(allocator, pointer_, sz);
         pointer_ = nullptr;
     }
 
-- 
2.43.0


From dfa84cd093815324401266e1c20b5e526fb9947f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:17 +0000
Subject: [PATCH 35/50] fix: failing to start a thread for lack of memory does
 not need more memory

---
 include/svs/lib/threads/thread.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/svs/lib/threads/thread.h b/include/svs/lib/threads/thread.h
index 5e7373e..b5ed069 100644
--- a/include/svs/lib/threads/thread.h
+++ b/include/svs/lib/threads/thread.h
@@ -806,7 +806,14 @@ template <typename T = telemetry::NoTelemetry> class ThreadImpl {
 
         // Launch the thread and wait until it reaches far enough in its execution that
         // it is spinning. At this point, it should be save to assign work to the thread.
-        worker_ = std::thread(std::move(f), std::move(promise));
+        try {
+            worker_ = std::thread(std::move(f), std::move(promise));
+        } catch (...) {
+            // Without a future, destroying the promise has nothing to report and does not
+            // need memory to do so.
+            result_ = std::future<void>();
+            throw;
+        }
         control_->spin_while(boot_state());
     }
 
-- 
2.43.0


From 8a9d876a3c3b6b8a4ec86196e94434be6b87b2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:36 +0000
Subject: [PATCH 36/50] fix: destroying a crashed thread whose exception was
 not collected does not end the process

---
 include/svs/lib/threads/thread.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/svs/lib/threads/thread.h b/include/svs/lib/threads/thread.h
index b5ed069..4b6eb6a 100644
--- a/include/svs/lib/threads/thread.h
+++ b/include/svs/lib/threads/thread.h
@@ -940,7 +940,12 @@ template <typename T = telemetry::NoTelemetry> class ThreadImpl {
     ThreadImpl(ThreadImpl&& other) noexcept = default;
     ThreadImpl& operator=(ThreadImpl&& other) noexcept = default;
 
-    ~ThreadImpl() { shutdown(); }
+    // If the thread crashed and its exception was not collected, the exception is dropped.
+    ~ThreadImpl() {
+        try {
+            shutdown();
+        } catch (...) {}
+    }
 
   private:
     ///// Members
-- 
2.43.0


From 1647c28634a185624e184a25bd2bb12b70f8211d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:42 +0000
Subject: [PATCH 37/50] fix: copy assignment of a ReadWriteProtected returns

---
 include/svs/lib/concurrency/readwrite_protected.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/svs/lib/concurrency/readwrite_protected.h b/include/svs/lib/concurrency/readwrite_protected.h
index 01c0423..5b3f56b 100644
--- a/include/svs/lib/concurrency/readwrite_protected.h
+++ b/include/svs/lib/concurrency/readwrite_protected.h
@@ -56,6 +56,7 @@ template <typename T> class ReadWriteProtected {
             return *this;
         }
         set(other.get());
+        return *this;
     }
 
     /// @brief Move construction by move-assigning the shared object.
-- 
2.43.0


From 9419e03386df018b8752710fb59fdbe88df39289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:42 +0000
Subject: [PATCH 38/50] fix: identifiers have more than 32 random bits

---
 include/svs/lib/uuid.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/svs/lib/uuid.h b/include/svs/lib/uuid.h
index ff9a10a..1721e4b 100644
--- a/include/svs/lib/uuid.h
+++ b/include/svs/lib/uuid.h
@@ -101,12 +101,12 @@ class UUID {
     /// See https://en.wikipedia.org/wiki/Universally_unique_identifier for details.
     ///
     UUID() {
+        // All bytes are drawn from the random device. Seeding a generator with a single
+        // draw yields only 2^32 distinct identifiers.
         std::random_device rd;
-        std::mt19937 gen(rd());
-        std::uniform_int_distribution<> distribution(0, 256);
-        // The formatted string is always 36 characters long.
+        std::uniform_int_distribution<> distribution(0, 255);
         for (size_t i = 0; i < num_bytes; i++) {
-            uuid_[i] = distribution(gen);
+            uuid_[i] = distribution(rd);
         }
 
         // Special positions
-- 
2.43.0


From 7a788ccf3545267fab26402eb1f0e221ded80b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:42 +0000
Subject: [PATCH 39/50] fix: k-means picks its initial centroids from the data

---
 include/svs/core/kmeans.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/svs/core/kmeans.h b/include/svs/core/kmeans.h
index cfe02f5..c01ebc6 100644
--- a/include/svs/core/kmeans.h
+++ b/include/svs/core/kmeans.h
@@ -147,11 +147,16 @@ data::SimpleData<float> train_impl(
 ) {
     size_t ndims = data.dimensions();
     auto num_clusters = parameters.clusters;
+    if (num_clusters > data.size()) {
+        throw ANNEXCEPTION(
+            "Cannot obtain {} clusters from {} data points!", num_clusters, data.size()
+        );
+    }
 
     // The cluster centroids
     auto centroids = data::SimpleData<float>{num_clusters, ndims};
     auto rng = std::mt19937_64(parameters.seed);
-    auto distribution = std::uniform_int_distribution<size_t>(0, data.size());
+    auto distribution = std::uniform_int_distribution<size_t>(0, data.size() - 1);
     std::unordered_set<size_t> seen{};
     for (size_t i = 0; i < num_clusters; ++i) {
         // Pick a vector a random.
-- 
2.43.0


From 761c4033de8607aa7adef24a190b7cbefb541385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:21 +0000
Subject: [PATCH 40/50] fix: the medoid does not depend on the number of
 threads

---
 include/svs/core/medioid.h | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/include/svs/core/medioid.h b/include/svs/core/medioid.h
index 279aa29..45dae32 100644
--- a/include/svs/core/medioid.h
+++ b/include/svs/core/medioid.h
@@ -18,6 +18,7 @@
 #include "svs/lib/threads.h"
 
 // stl
+#include <limits>
 #include <tuple>
 #include <vector>
 
@@ -296,10 +297,15 @@ size_t find_medioid(
         compute_medioid(data, threadpool, predicate, map, parameters);
 
     // Find the closest element to the medioid that satisfies the predicate.
+    // Distances are kept in double precision: rounding the best distance seen so far would
+    // make the outcome depend on the number of threads.
+    struct Closest {
+        size_t id = type_traits::sentinel_v<Neighbor<size_t>, std::less<>>.id();
+        double distance = std::numeric_limits<double>::infinity();
+    };
+
     // Thread local nearest neighbors.
-    threads::SequentialTLS<Neighbor<size_t>> closest_neighbors(
-        type_traits::sentinel_v<Neighbor<size_t>, std::less<>>, threadpool.size()
-    );
+    threads::SequentialTLS<Closest> closest_neighbors(Closest{}, threadpool.size());
 
     threads::run(
         threadpool,
@@ -321,21 +327,21 @@ size_t find_medioid(
                     distance += diff * diff;
                 }
 
-                if (distance < best.distance()) {
-                    best = {i, lib::narrow_cast<float>(distance)};
+                if (distance < best.distance) {
+                    best = Closest{i, distance};
                 }
             }
         }
     );
 
     // Return the minimum index.
-    auto global_min = type_traits::sentinel_v<Neighbor<size_t>, std::less<>>;
+    auto global_min = Closest{};
     closest_neighbors.visit([&](const auto& neighbor) {
-        if (neighbor < global_min) {
+        if (neighbor.distance < global_min.distance) {
             global_min = neighbor;
         }
     });
-    return global_min.id();
+    return global_min.id;
 }
 
 ///
-- 
2.43.0


From 3804592f189f947805c7fb939192947d14c245a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:09 +0000
Subject: [PATCH 41/50] fix: compacting without scratch space raises an error

---
 include/svs/core/compact.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/svs/core/compact.h b/include/svs/core/compact.h
index 1496b84..3338bf0 100644
--- a/include/svs/core/compact.h
+++ b/include/svs/core/compact.h
@@ -48,6 +48,9 @@ void compact_data(
     size_t batchsize = buffer.size();
     size_t start = 0;
     size_t end = new_to_old.size();
+    if (batchsize == 0 && start < end) {
+        throw ANNEXCEPTION("Cannot compact data without room in the temporary buffer!");
+    }
     while (start < end) {
         size_t stop = std::min(start + batchsize, end);
         auto batch_to_new = threads::UnitRange{start, stop};
-- 
2.43.0


From 52070fc670663d9738f845d8fbe03394b2e1dd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:28 +0000
Subject: [PATCH 42/50] fix: benchmark results are only replaced by results
 that were written completely

The results are written next to the old ones and then renamed over them. With a full
disk the rename happened all the same, replacing complete results by a part of the new ones.
---
 benchmark/src/benchmark.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/benchmark/src/benchmark.cpp b/benchmark/src/benchmark.cpp
index 5ee0de4..c99c19d 100644
--- a/benchmark/src/benchmark.cpp
+++ b/benchmark/src/benchmark.cpp
@@ -25,6 +25,7 @@ void atomic_save(const toml::table& table, const std::filesystem::path& path) {
     {
         auto ostream = svs::lib::open_write(temppath);
         ostream << table << '\n';
+        svs::lib::close_written(ostream);
     }
     std::filesystem::rename(temppath, path);
 }
-- 
2.43.0


From 1286967bfd96079c1f295696cf225d19f22ce09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:28 +0000
Subject: [PATCH 43/50] fix: the last bucket of a reference data set can hold
 fewer vectors than neighbors

Its missing neighbors were looked up as if they existed, with an assertion failure or
arbitrary ids as the result.
---
 include/svs/misc/dynamic_helper.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/svs/misc/dynamic_helper.h b/include/svs/misc/dynamic_helper.h
index b9496b1..ac28ff5 100644
--- a/include/svs/misc/dynamic_helper.h
+++ b/include/svs/misc/dynamic_helper.h
@@ -188,10 +188,19 @@ template <typename Idx, typename Eltype, size_t N, typename Dist> class Referenc
 
             // Construct a neighbor-matrix from the groundtruth, reindexing the returned
             // ID's to make them global.
+            //
+            // The last bucket can hold fewer elements than the number of neighbors.
             auto bucket_groundtruth =
                 make_dense_array<Neighbor<Idx>>(num_queries, num_neighbors);
+            using Cmp = distance::compare_t<Dist>;
+            std::fill(
+                bucket_groundtruth.begin(),
+                bucket_groundtruth.end(),
+                type_traits::sentinel_v<Neighbor<Idx>, Cmp>
+            );
+            size_t num_found = std::min(num_neighbors, ids.size());
             for (size_t i = 0; i < num_queries; ++i) {
-                for (size_t j = 0; j < num_neighbors; ++j) {
+                for (size_t j = 0; j < num_found; ++j) {
                     auto parent_id = lib::narrow<Idx>(view.parent_id(indices.at(i, j)));
                     bucket_groundtruth.at(i, j) =
                         Neighbor<Idx>{parent_id, distances.at(i, j)};
-- 
2.43.0


From 32daa2e80457fc2e496f8f80758cccb8655dc12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:25 +0000
Subject: [PATCH 44/50] fix: calibrating a clustered index keeps only
 configurations reaching the target recall

---
 .../svs-benchmark/inverted/memory/traits.h    | 23 ++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/benchmark/include/svs-benchmark/inverted/memory/traits.h b/benchmark/include/svs-benchmark/inverted/memory/traits.h
index 51af3f8..7e34909 100644
--- a/benchmark/include/svs-benchmark/inverted/memory/traits.h
+++ b/benchmark/include/svs-benchmark/inverted/memory/traits.h
@@ -63,29 +63,46 @@ template <> struct IndexTraits<svs::Inverted> {
 
         auto valid_configurations = std::vector<config_type>();
 
+        // What to use if no configuration reaches the target recall.
+        config_type most_accurate = baseline;
+        double highest_recall = std::numeric_limits<double>::lowest();
+
         // Search over epsilon search space first.
         auto epsilons = std::vector<double>({0.8, 1.0, 2.0, 5.0, 10.0, 20.0});
         auto sws_range = svs::threads::UnitRange<size_t>(1, 300);
         for (auto epsilon : epsilons) {
             auto copy = baseline;
             copy.refinement_epsilon_ = epsilon;
-            copy.primary_parameters_.buffer_config_ = *std::lower_bound(
+            auto window_size = std::lower_bound(
                 sws_range.begin(),
                 sws_range.end(),
                 target_recall,
-                [&](size_t window_size, double recall) {
-                    copy.primary_parameters_.buffer_config_ = window_size;
+                [&](size_t this_window_size, double recall) {
+                    copy.primary_parameters_.buffer_config_ = this_window_size;
                     index.set_search_parameters(copy);
 
                     auto result = index.search(queries, num_neighbors);
                     auto this_recall = svs::k_recall_at_n(groundtruth, result);
+                    if (this_recall > highest_recall) {
+                        highest_recall = this_recall;
+                        most_accurate = copy;
+                    }
                     return this_recall < recall;
                 }
             );
 
+            // No window is large enough for this epsilon.
+            if (window_size == sws_range.end()) {
+                continue;
+            }
+            copy.primary_parameters_.buffer_config_ = *window_size;
             valid_configurations.push_back(copy);
         }
 
+        if (valid_configurations.empty()) {
+            return most_accurate;
+        }
+
         // Loop through each valid configuration - find the fastest.
         size_t best_config = std::numeric_limits<size_t>::max();
         double lowest_latency = std::numeric_limits<double>::max();
-- 
2.43.0


From c2148376857b146f4373e2e3d1e5b7afa9c77268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:17 +0000
Subject: [PATCH 45/50] fix: converters report output that could not be written

---
 utils/convert_data_to_float16.cpp | 3 +++
 utils/convert_legacy.cpp          | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/utils/convert_data_to_float16.cpp b/utils/convert_data_to_float16.cpp
index e9c980d..7798a62 100644
--- a/utils/convert_data_to_float16.cpp
+++ b/utils/convert_data_to_float16.cpp
@@ -38,6 +38,7 @@ int svs_main(std::vector<std::string> args) {
         for (auto i : reader) {
             writer << i;
         }
+        writer.close();
     } else if (file_type == 1) {
         std::cout << "Converting Vecs data!" << std::endl;
         auto reader = svs::io::vecs::VecsReader<float>{filename_f32};
@@ -45,6 +46,7 @@ int svs_main(std::vector<std::string> args) {
         for (auto i : reader) {
             writer << i;
         }
+        writer.close();
     } else if (file_type == 2) {
         std::cout << "Converting Bin data!" << std::endl;
         auto reader = svs::io::binary::BinaryReader<float>{filename_f32};
@@ -53,6 +55,7 @@ int svs_main(std::vector<std::string> args) {
         for (auto i : reader) {
             writer << i;
         }
+        writer.close();
     }
 
     return 0;
diff --git a/utils/convert_legacy.cpp b/utils/convert_legacy.cpp
index d853d59..ef754dd 100644
--- a/utils/convert_legacy.cpp
+++ b/utils/convert_legacy.cpp
@@ -64,6 +64,7 @@ void convert_graph(const std::vector<std::string>& args) {
         // Increment iterator
         ++reader;
     }
+    writer.close();
     fmt::print("Conversion took {} seconds\n", svs::lib::time_difference(tic));
 }
 
@@ -98,6 +99,7 @@ void convert_data_impl(
         // Increment iterator
         ++reader;
     }
+    writer.close();
     fmt::print("Conversion took {} seconds\n", svs::lib::time_difference(tic));
 }
 
-- 
2.43.0


From 2f34141370d5f9a37105a727f0ed502546e67b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:42 +0000
Subject: [PATCH 46/50] fix: mark LeanVec search positions without a result
 instead of returning left-overs

---
 include/svs/extensions/vamana/leanvec.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/svs/extensions/vamana/leanvec.h b/include/svs/extensions/vamana/leanvec.h
index cb59d1e..6ba0fad 100644
--- a/include/svs/extensions/vamana/leanvec.h
+++ b/include/svs/extensions/vamana/leanvec.h
@@ -152,6 +152,9 @@ void svs_invoke(
     threads::UnitRange<size_t> thread_indices,
     const Search& search
 ) {
+    using compare_type = typename SearchBuffer::compare_type;
+    constexpr auto no_result = type_traits::sentinel_v<Neighbor<I>, compare_type>;
+
     size_t num_neighbors = result.n_neighbors();
     size_t batch_start = thread_indices.start();
 
@@ -188,9 +191,14 @@ void svs_invoke(
         search_buffer.sort();
 
         // Copy back results.
-        for (size_t j = 0; j < num_neighbors; ++j) {
+        // Entries past the end of the search buffer are left-overs and must not be returned.
+        size_t num_found = std::min(num_neighbors, search_buffer.size());
+        for (size_t j = 0; j < num_found; ++j) {
             result.set(search_buffer[j], i, j);
         }
+        for (size_t j = num_found; j < num_neighbors; ++j) {
+            result.set(no_result, i, j);
+        }
     }
 }
 
-- 
2.43.0


From c05a64ec5774895292545f9140498bfbf226c591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:19 +0000
Subject: [PATCH 47/50] fix: growing two-level LVQ data without memory keeps
 the levels the same size

---
 include/svs/quantization/lvq/lvq.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/svs/quantization/lvq/lvq.h b/include/svs/quantization/lvq/lvq.h
index d9f260c..a10830e 100644
--- a/include/svs/quantization/lvq/lvq.h
+++ b/include/svs/quantization/lvq/lvq.h
@@ -235,9 +235,15 @@ class LVQDataset {
     void resize(size_t new_size)
         requires is_resizeable
     {
-        // TODO: Should we roll-back in case of failure?
+        size_t old_size = primary_.size();
         primary_.resize(new_size);
-        residual_.resize(new_size);
+        try {
+            residual_.resize(new_size);
+        } catch (...) {
+            // Keep the sizes of the two levels in-sync.
+            primary_.resize(old_size);
+            throw;
+        }
     }
 
     ///// Compaction
-- 
2.43.0


From a366f23aa4e371e754de27ab7bbfa5ffc26a96ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:19 +0000
Subject: [PATCH 48/50] fix: compacting two-level LVQ data without memory moves
 nothing

---
 include/svs/core/data/simple.h          | 16 ++++++++++++++--
 include/svs/quantization/lvq/datasets.h |  7 +++++++
 include/svs/quantization/lvq/lvq.h      |  4 +++-
 3 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/include/svs/core/data/simple.h b/include/svs/core/data/simple.h
index 3ec4612..c62ff68 100644
--- a/include/svs/core/data/simple.h
+++ b/include/svs/core/data/simple.h
@@ -757,12 +757,24 @@ class SimpleData<T, Extent, Blocked<Alloc>> {
     }
 
     ///// Compaction
+    // Return scratch space for compaction in batches of (at most) the given size.
+    data::SimpleData<T, Extent> compaction_scratch(size_t batchsize = 1'000'000) const {
+        return data::SimpleData<T, Extent>(std::min(batchsize, size()), dimensions());
+    }
+
+    // Compact using scratch space obtained beforehand.
+    template <std::integral I, threads::ThreadPool Pool>
+    void compact(
+        std::span<const I> new_to_old, Pool& threadpool, data::SimpleData<T, Extent>& buffer
+    ) {
+        compact_data(*this, buffer, new_to_old, threadpool);
+    }
+
     template <std::integral I, threads::ThreadPool Pool>
     void
     compact(std::span<const I> new_to_old, Pool& threadpool, size_t batchsize = 1'000'000) {
         // Alllocate scratch space.
-        batchsize = std::min(batchsize, size());
-        auto buffer = data::SimpleData<T, Extent>(batchsize, dimensions());
+        auto buffer = compaction_scratch(batchsize);
         compact_data(*this, buffer, new_to_old, threadpool);
     }
 
diff --git a/include/svs/quantization/lvq/datasets.h b/include/svs/quantization/lvq/datasets.h
index 08fd1fc..3bf5d3a 100644
--- a/include/svs/quantization/lvq/datasets.h
+++ b/include/svs/quantization/lvq/datasets.h
@@ -474,6 +474,13 @@ class CompressedDataset {
         data_.compact(std::forward<Args>(args)...);
     }
 
+    // Scratch space for compaction may be obtained from the backing buffer beforehand.
+    auto compaction_scratch(size_t batchsize) const
+        requires is_resizeable
+    {
+        return data_.compaction_scratch(batchsize);
+    }
+
     /////
     ///// Saving and Loading.
     /////
diff --git a/include/svs/quantization/lvq/lvq.h b/include/svs/quantization/lvq/lvq.h
index a10830e..03a3c10 100644
--- a/include/svs/quantization/lvq/lvq.h
+++ b/include/svs/quantization/lvq/lvq.h
@@ -251,8 +251,10 @@ class LVQDataset {
         requires is_resizeable
     void
     compact(std::span<const I> new_to_old, Pool& threadpool, size_t batchsize = 1'000'000) {
+        // Running out of memory between the two levels would leave them inconsistent.
+        auto residual_scratch = residual_.compaction_scratch(batchsize);
         primary_.compact(new_to_old, threadpool, batchsize);
-        residual_.compact(new_to_old, threadpool, batchsize);
+        residual_.compact(new_to_old, threadpool, residual_scratch);
     }
 
     // Return a shared copy of the LVQ centroids.
-- 
2.43.0


From 04e106a0e2fbdfd7174e013a996661ac471876af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:05 +0000
Subject: [PATCH 49/50] Revert "fix: calibrating a clustered index keeps only
 configurations reaching the target recall"

This reverts commit 32daa2e80457fc2e496f8f80758cccb8655dc12d.
---
 .../svs-benchmark/inverted/memory/traits.h    | 23 +++----------------
 1 file changed, 3 insertions(+), 20 deletions(-)

diff --git a/benchmark/include/svs-benchmark/inverted/memory/traits.h b/benchmark/include/svs-benchmark/inverted/memory/traits.h
index 7e34909..51af3f8 100644
--- a/benchmark/include/svs-benchmark/inverted/memory/traits.h
+++ b/benchmark/include/svs-benchmark/inverted/memory/traits.h
@@ -63,46 +63,29 @@ template <> struct IndexTraits<svs::Inverted> {
 
         auto valid_configurations = std::vector<config_type>();
 
-        // What to use if no configuration reaches the target recall.
-        config_type most_accurate = baseline;
-        double highest_recall = std::numeric_limits<double>::lowest();
-
         // Search over epsilon search space first.
         auto epsilons = std::vector<double>({0.8, 1.0, 2.0, 5.0, 10.0, 20.0});
         auto sws_range = svs::threads::UnitRange<size_t>(1, 300);
         for (auto epsilon : epsilons) {
             auto copy = baseline;
             copy.refinement_epsilon_ = epsilon;
-            auto window_size = std::lower_bound(
+            copy.primary_parameters_.buffer_config_ = *std::lower_bound(
                 sws_range.begin(),
                 sws_range.end(),
                 target_recall,
-                [&](size_t this_window_size, double recall) {
-                    copy.primary_parameters_.buffer_config_ = this_window_size;
+                [&](size_t window_size, double recall) {
+                    copy.primary_parameters_.buffer_config_ = window_size;
                     index.set_search_parameters(copy);
 
                     auto result = index.search(queries, num_neighbors);
                     auto this_recall = svs::k_recall_at_n(groundtruth, result);
-                    if (this_recall > highest_recall) {
-                        highest_recall = this_recall;
-                        most_accurate = copy;
-                    }
                     return this_recall < recall;
                 }
             );
 
-            // No window is large enough for this epsilon.
-            if (window_size == sws_range.end()) {
-                continue;
-            }
-            copy.primary_parameters_.buffer_config_ = *window_size;
             valid_configurations.push_back(copy);
         }
 
-        if (valid_configurations.empty()) {
-            return most_accurate;
-        }
-
         // Loop through each valid configuration - find the fastest.
         size_t best_config = std::numeric_limits<size_t>::max();
         double lowest_latency = std::numeric_limits<double>::max();
-- 
2.43.0


From 6287e488298cf09fa5566d5ae404e266475651e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:05 +0000
Subject: [PATCH 50/50] Revert "fix: benchmark results are only replaced by
 results that were written completely"

This reverts commit 52070fc670663d9738f845d8fbe03394b2e1dd1e.
---
 benchmark/src/benchmark.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/benchmark/src/benchmark.cpp b/benchmark/src/benchmark.cpp
index c99c19d..5ee0de4 100644
--- a/benchmark/src/benchmark.cpp
+++ b/benchmark/src/benchmark.cpp
@@ -25,7 +25,6 @@ void atomic_save(const toml::table& table, const std::filesystem::path& path) {
     {
         auto ostream = svs::lib::open_write(temppath);
         ostream << table << '\n';
-        svs::lib::close_written(ostream);
     }
     std::filesystem::rename(temppath, path);
 }
-- 
2.43.0

