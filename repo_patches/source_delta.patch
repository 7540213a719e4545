From c85fb15b10a529ee62aeaec8c3a9f116496919ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:29 +0000
Subject: [PATCH 01/30] fix: a timeout or interactive interrupt ends the search
 and keeps what it found

A stop noticed by one pass was forgotten: the trial loop, the restart and the
chainlength phase went on, and a stop during the first initialization pass threw
the (complete) initial embedding away, so return_overlap returned empty chains.
---
 include/find_embedding/pathfinder.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/find_embedding/pathfinder.hpp b/include/find_embedding/pathfinder.hpp
index 84c6bf2..96244e2 100644
--- a/include/find_embedding/pathfinder.hpp
+++ b/include/find_embedding/pathfinder.hpp
@@ -590,6 +590,7 @@ class pathfinder_base : public pathfinder_public_interface {
         auto timeout = duration_cast<clock::duration>(timeout0);
         stoptime = clock::now() + timeout;
         ep.reset_mood();
+        bool stopped = false;  // set when a pass reports a timeout or an interactive interrupt
         if (params.skip_initialization) {
             if (initEmbedding.linked()) {
                 currEmbedding = initEmbedding;
@@ -602,7 +603,8 @@ class pathfinder_base : public pathfinder_public_interface {
             currEmbedding = initEmbedding;
             switch (initialization_pass(currEmbedding)) {
                 case -2:
-                    return 0;
+                    stopped = true;  // the pass is complete: keep its result, but make no further passes
+                    break;
                 case -1:
                     throw BadInitializationException(
                             "Failed during initialization.  This typically "
@@ -617,7 +619,7 @@ class pathfinder_base : public pathfinder_public_interface {
         check_improvement(currEmbedding);
         ep.improved = 1;
         currEmbedding = bestEmbedding;
-        for (int trial_patience = params.tries; trial_patience-- && (!ep.embedded);) {
+        for (int trial_patience = params.tries; !stopped && trial_patience-- && (!ep.embedded);) {
             int improvement_patience = params.max_no_improvement;
             ep.major_info("embedding trial %d\n", params.tries - trial_patience);
             pushback = 0;
@@ -636,6 +638,7 @@ class pathfinder_base : public pathfinder_public_interface {
                 }
                 switch (r) {
                     case -2:
+                        stopped = true;
                         improvement_patience = 0;
                         break;
                     case -1:
@@ -651,13 +654,13 @@ class pathfinder_base : public pathfinder_public_interface {
                         break;
                 }
             }
-            if (trial_patience && !ep.embedded && !improvement_patience) {
+            if (!stopped && trial_patience && !ep.embedded && !improvement_patience) {
                 ep.initialized = ep.desperate = pushback = 0;
                 currEmbedding = initEmbedding;
                 int r = initialization_pass(currEmbedding);
                 switch (r) {
                     case -2:
-                        trial_patience = 0;
+                        stopped = true;
                         break;
                     case -1:
                         currEmbedding = bestEmbedding;
@@ -671,7 +674,7 @@ class pathfinder_base : public pathfinder_public_interface {
             }
         }
 
-        if (ep.embedded && params.chainlength_patience) {
+        if (!stopped && ep.embedded && params.chainlength_patience) {
             ep.major_info("reducing chain lengths\n");
             int improvement_patience = params.chainlength_patience;
             ep.weight_bound = 1;
-- 
2.43.0


From faece1e71fd9c788ac411792368d8724260f3610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:29 +0000
Subject: [PATCH 02/30] fix: measure the embedding timeout on the monotonic
 clock

high_resolution_clock is the system clock on libstdc++, so setting the wall clock
ended a search early or kept it running past its timeout.
---
 include/find_embedding/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/find_embedding/util.hpp b/include/find_embedding/util.hpp
index 7697ab5..5da0375 100644
--- a/include/find_embedding/util.hpp
+++ b/include/find_embedding/util.hpp
@@ -51,7 +51,7 @@ using fastrng::fastrng;
 using distance_t = long long int;
 constexpr distance_t max_distance = numeric_limits<distance_t>::max();
 using RANDOM = fastrng;
-using clock = std::chrono::high_resolution_clock;
+using clock = std::chrono::steady_clock;
 template <typename P>
 using min_queue = std::priority_queue<priority_node<P, min_heap_tag>>;
 template <typename P>
-- 
2.43.0


From 146026778635c34ccb3bac26088b4c0ed7ffaae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:29 +0000
Subject: [PATCH 03/30] fix: a huge or infinite timeout must not overflow into
 the past

---
 include/find_embedding/pathfinder.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/find_embedding/pathfinder.hpp b/include/find_embedding/pathfinder.hpp
index 96244e2..bc8837d 100644
--- a/include/find_embedding/pathfinder.hpp
+++ b/include/find_embedding/pathfinder.hpp
@@ -586,9 +586,13 @@ class pathfinder_base : public pathfinder_public_interface {
 
     //! perform the heuristic embedding, returning 1 if an embedding was found and 0 otherwise
     virtual int heuristicEmbedding() override {
-        auto timeout0 = duration<double>(params.timeout);
-        auto timeout = duration_cast<clock::duration>(timeout0);
-        stoptime = clock::now() + timeout;
+        // a timeout too long for the clock to represent means "no deadline"
+        auto timeout = duration<double>(max(0., params.timeout));
+        auto starttime = clock::now();
+        if (timeout < duration<double>(clock::time_point::max() - starttime) / 2)
+            stoptime = starttime + duration_cast<clock::duration>(timeout);
+        else
+            stoptime = clock::time_point::max();
         ep.reset_mood();
         bool stopped = false;  // set when a pass reports a timeout or an interactive interrupt
         if (params.skip_initialization) {
-- 
2.43.0


From c40724ba26229c834878f9a99d4aafdba462d9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:29 +0000
Subject: [PATCH 04/30] fix: report errors of parallel search tasks and leave
 none of them running

future::wait() hides an exception thrown by a task, so a failed allocation in one
thread went on with half-computed distances; and when a thread could not be
created the exception left the tasks already started running on freed memory.
---
 include/find_embedding/pathfinder.hpp | 38 +++++++++++++++++++--------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/include/find_embedding/pathfinder.hpp b/include/find_embedding/pathfinder.hpp
index bc8837d..fbc5a8b 100644
--- a/include/find_embedding/pathfinder.hpp
+++ b/include/find_embedding/pathfinder.hpp
@@ -793,18 +793,33 @@ class pathfinder_parallel : public pathfinder_base<embedding_problem_t> {
         }
     }
 
+    //! start one task per thread, wait for all of them and rethrow the first error.  a task which can't
+    //! get a thread of its own is run by this one.  no task is left running, no matter how we leave
+    template <typename C>
+    void exec_tasks(C start_task) {
+        int started = 0;
+        try {
+            for (; started < num_threads; started++) futures[started] = start_task(started);
+        } catch (...) {
+            while (started--) futures[started].wait();
+            throw;
+        }
+        for (auto &f : futures) f.wait();
+        for (auto &f : futures) f.get();
+    }
+
     template <typename C>
     void exec_chunked(C e_chunk) {
         const int grainsize = super::num_qubits / num_threads;
         int grainmod = super::num_qubits % num_threads;
 
         int a = 0;
-        for (int i = num_threads; i--;) {
+        exec_tasks([&](int) {
             int b = a + grainsize + (grainmod-- > 0);
-            futures[i] = std::async(std::launch::async, e_chunk, a, b);
+            auto f = std::async(std::launch::async | std::launch::deferred, e_chunk, a, b);
             a = b;
-        }
-        for (int i = num_threads; i--;) futures[i].wait();
+            return f;
+        });
     }
 
     template <typename C>
@@ -813,12 +828,12 @@ class pathfinder_parallel : public pathfinder_base<embedding_problem_t> {
         int grainmod = super::num_qubits % num_threads;
 
         int a = 0;
-        for (int i = num_threads; i--;) {
+        exec_tasks([&](int i) {
             int b = a + grainsize + (grainmod-- > 0);
-            futures[i] = std::async(std::launch::async, e_chunk, i, a, b);
+            auto f = std::async(std::launch::async | std::launch::deferred, e_chunk, i, a, b);
             a = b;
-        }
-        for (int i = num_threads; i--;) futures[i].wait();
+            return f;
+        });
     }
 
   public:
@@ -843,9 +858,10 @@ class pathfinder_parallel : public pathfinder_base<embedding_problem_t> {
 
         nbr_i = 0;
         neighbors_embedded = 0;
-        for (int i = 0; i < num_threads; i++)
-            futures[i] = std::async(std::launch::async, [this, &emb, &u]() { run_in_thread(emb, u); });
-        for (int i = 0; i < num_threads; i++) futures[i].wait();
+        exec_tasks([&](int) {
+            return std::async(std::launch::async | std::launch::deferred,
+                              [this, &emb, u]() { run_in_thread(emb, u); });
+        });
 
         for (auto &v : super::ep.var_neighbors(u)) {
             super::accumulate_distance_at_chain(emb, v);  // this isn't parallel but at least it should be sparse?
-- 
2.43.0


From 3bf5472771efc2200ac631022f34622a398aa2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:29 +0000
Subject: [PATCH 05/30] fix: quickpass with local_search only searches around
 linked chains

The local search (and the flip_back after it) assumes that the variable has a
chain linked to each of its neighbors; with partial initial chains, or after a
chain was dropped for its length, it followed missing links and crashed.
---
 include/find_embedding/pathfinder.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/find_embedding/pathfinder.hpp b/include/find_embedding/pathfinder.hpp
index fbc5a8b..3a4d65c 100644
--- a/include/find_embedding/pathfinder.hpp
+++ b/include/find_embedding/pathfinder.hpp
@@ -555,8 +555,9 @@ class pathfinder_base : public pathfinder_public_interface {
                 lastsize = bestEmbedding.chainsize(u);
             }
 
-            bool ls = local_search;
-            if (ls && lastsize) {
+            // a local search starts from a chain that is linked to every neighbor
+            bool ls = local_search && bestEmbedding.linked(u);
+            if (ls) {
                 for (auto &q : bestEmbedding.get_chain(u)) {
                     if (bestEmbedding.weight(q) > 1) {
                         ls = false;
-- 
2.43.0


From e2df2cd7f7f54f68c2de909fe788af60279dda40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:21 +0000
Subject: [PATCH 06/30] fix: translate quickpass's varorder to the internal
 variable numbers

With fixed chains the internal numbering differs from the caller's, so an explicit
variable order embedded the wrong variables and could replace a fixed chain.
---
 include/find_embedding/find_embedding.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/find_embedding/find_embedding.hpp b/include/find_embedding/find_embedding.hpp
index 5ddebd5..1989230 100644
--- a/include/find_embedding/find_embedding.hpp
+++ b/include/find_embedding/find_embedding.hpp
@@ -123,7 +123,7 @@ class parameter_processor {
         vector<int> U;
         for (auto &v : V) {
             if (v < 0 || static_cast<unsigned int>(v) >= num_vars) throw CorruptParametersException();
-            if (!var_fixed_unscrewed[v]) U.push_back(v);
+            if (!var_fixed_unscrewed[v]) U.push_back(screw_vars[v]);
         }
         return U;
     }
-- 
2.43.0


From dcf3b7208396a17cc9c26e7f37fa3a2bb3ed1ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:09 +0000
Subject: [PATCH 07/30] fix: don't follow stale paths through qubits masked by
 restrict_chains

visited is -1 for a qubit outside of both domains, and the Steiner construction
took that for "visited": it followed a parent left over from an earlier search,
which could be a cycle, and find_embedding never returned (even after its timeout).
---
 include/find_embedding/embedding.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/find_embedding/embedding.hpp b/include/find_embedding/embedding.hpp
index 685e6c1..3ef00de 100644
--- a/include/find_embedding/embedding.hpp
+++ b/include/find_embedding/embedding.hpp
@@ -201,10 +201,10 @@ class embedding {
         for (auto &v : ep.var_neighbors(u)) {
             if (chainsize(v)) {
                 int qv = q;
-                distance_t dqv = visited_list[v][q] ? distances[v][q] : max_distance;
+                distance_t dqv = visited_list[v][q] == 1 ? distances[v][q] : max_distance;
                 for (auto &p : var_embedding[u]) {
                     if (var_embedding[u].refcount(p) > 1) {
-                        distance_t dp = visited_list[v][p] ? distances[v][p] : max_distance;
+                        distance_t dp = visited_list[v][p] == 1 ? distances[v][p] : max_distance;
                         if (dp < dqv) {
                             dqv = dp;
                             qv = p;
-- 
2.43.0


From bdac0c3f5af3a2db6acb278def39e41330f74ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:24 +0000
Subject: [PATCH 08/30] fix: paths to fixed chains respect the overlap bound

The search from a fixed chain started from its neighboring qubits even when they
were full, so quickpass(overlap_bound=0) returned overlapping chains.
---
 include/find_embedding/pathfinder.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/find_embedding/pathfinder.hpp b/include/find_embedding/pathfinder.hpp
index 3a4d65c..d0bd1e3 100644
--- a/include/find_embedding/pathfinder.hpp
+++ b/include/find_embedding/pathfinder.hpp
@@ -467,9 +467,13 @@ class pathfinder_base : public pathfinder_public_interface {
                             visited[p] = 1;
                         }
                     if (std::is_same<behavior_tag, default_tag>::value) {
-                        pq.emplace(p, permutation[p], qubit_weight[p]);
-                        parent[p] = q;
                         visited[p] = 1;
+                        if (emb.weight(p) >= ep.weight_bound) {
+                            distances[v][p] = max_distance;
+                        } else {
+                            pq.emplace(p, permutation[p], qubit_weight[p]);
+                            parent[p] = q;
+                        }
                     }
                 }
             }
-- 
2.43.0


From a8989d016f3db4ea24743b57218b248c4b28fd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:01 +0000
Subject: [PATCH 09/30] fix: a miner stays usable after a call that ran out of
 memory

quickpass(clear_first=False) went on with an embedding that a failed allocation
had left half-modified, and followed links to missing qubits; a failing
set_initial_chains could leave a mixture of old and new initial chains.
---
 include/find_embedding/chain.hpp      |  6 ++++++
 include/find_embedding/embedding.hpp  |  7 +++++++
 include/find_embedding/pathfinder.hpp | 12 +++++++++++-
 3 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/include/find_embedding/chain.hpp b/include/find_embedding/chain.hpp
index e8e44d3..40f1b67 100644
--- a/include/find_embedding/chain.hpp
+++ b/include/find_embedding/chain.hpp
@@ -109,6 +109,12 @@ class chain {
         return *this;
     }
 
+    //! exchange the contents of two chains; the qubit weights are left to the caller
+    void swap(chain &c) {
+        data.swap(c.data);
+        links.swap(c.links);
+    }
+
     //! number of qubits in chain
     inline size_t size() const { return data.size(); }
 
diff --git a/include/find_embedding/embedding.hpp b/include/find_embedding/embedding.hpp
index 3ef00de..2909add 100644
--- a/include/find_embedding/embedding.hpp
+++ b/include/find_embedding/embedding.hpp
@@ -120,6 +120,13 @@ class embedding {
         return *this;
     }
 
+    //! exchange the chains of two embeddings of the same problem; never throws
+    void swap(embedding<embedding_problem_t> &other) {
+        qub_weight.swap(other.qub_weight);
+        for (size_t v = var_embedding.size(); v--;) var_embedding[v].swap(other.var_embedding[v]);
+        DIAGNOSE_EMB("swap");
+    }
+
     //! Get the variables in a chain
     inline const chain &get_chain(int v) const { return var_embedding[v]; }
 
diff --git a/include/find_embedding/pathfinder.hpp b/include/find_embedding/pathfinder.hpp
index d0bd1e3..8aba8c3 100644
--- a/include/find_embedding/pathfinder.hpp
+++ b/include/find_embedding/pathfinder.hpp
@@ -79,6 +79,10 @@ class pathfinder_base : public pathfinder_public_interface {
     embedding_t currEmbedding;
     embedding_t initEmbedding;
 
+    //! false while `bestEmbedding` is being modified -- and from then on, if an exception (such as a
+    //! failed allocation) leaves it half-way
+    bool best_intact = true;
+
     int num_qubits, num_reserved;
     int num_vars, num_fixed;
 
@@ -133,7 +137,8 @@ class pathfinder_base : public pathfinder_public_interface {
 
     //! setter for the initial_chains parameter
     virtual void set_initial_chains(map<int, vector<int>> chains) override {
-        initEmbedding = embedding_t(ep, params.fixed_chains, chains);
+        embedding_t emb(ep, params.fixed_chains, chains);
+        initEmbedding.swap(emb);
     }
 
     virtual ~pathfinder_base() {}
@@ -179,7 +184,9 @@ class pathfinder_base : public pathfinder_public_interface {
             }
         }
         if (better) {
+            best_intact = false;
             bestEmbedding = emb;
+            best_intact = true;
             tmp_stats.swap(best_stats);
         }
         return better;
@@ -551,6 +558,8 @@ class pathfinder_base : public pathfinder_public_interface {
         int old_bound = ep.weight_bound;
         ep.weight_bound = 1 + overlap_bound;
         ep.round_beta = round_beta;
+        clear_first |= !best_intact;
+        best_intact = false;
         if (clear_first) bestEmbedding = initEmbedding;
         for (auto &u : varorder) {
             lastsize = bestEmbedding.chainsize(u);
@@ -586,6 +595,7 @@ class pathfinder_base : public pathfinder_public_interface {
                 }
             }
         }
+        best_intact = true;
         ep.weight_bound = old_bound;
     }
 
-- 
2.43.0


From bd63ae7c4b1881d8412b0a4f9b51a60aaa582c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:45 +0000
Subject: [PATCH 10/30] fix: coordinate labels of zephyr graphs depend on the
 tile size

---
 minorminer/busclique.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index a9a7e73..fca7224 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -828,7 +828,7 @@ cdef class _zephyr_busgraph:
             internal_seed = seed
 
         cdef zephyr_spec *zep = new zephyr_spec(rows, tile, internal_seed)
-        coordinates = dwave.graphs.zephyr_coordinates(rows)
+        coordinates = dwave.graphs.zephyr_coordinates(rows, tile)
         cdef edges_t edges
         if g.graph['labels'] == 'int':
             self.nodes = g.nodes()
-- 
2.43.0


From 353545167b46ebfe60d36e3f294e31321d31db86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:10 +0000
Subject: [PATCH 11/30] fix: replace the clique cache files while the locks are
 held

---
 minorminer/busclique.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index fca7224..eafb4a5 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -504,8 +504,9 @@ class busgraph_cache:
                 with file_context.open(lrufile, 'wb') as lru:
                     dump(newLRU, lru)
 
-        #perform the copy-on-write for the lrufile and cachefile
-        file_context.close()
+                #perform the copy-on-write for the lrufile and cachefile, while
+                #nobody else can read, or replace, those files
+                file_context.close()
         return cache
 
     def largest_clique(self):
-- 
2.43.0


From 20666dd4811fc2ecd90d9f4ddb76aedd67ca3b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:10 +0000
Subject: [PATCH 12/30] fix: clique cache eviction copes with missing and stray
 files

---
 minorminer/busclique.pyx | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index eafb4a5..a80844b 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -477,11 +477,10 @@ class busgraph_cache:
                 else:
                     currcache = {}
                 cache = None if force_write else currcache.get(identifier)
-                if cache is None:
+                update = cache is None
+                if update:
                     cache = compute()
                     currcache[identifier] = cache
-                    with file_context.open(cachefile, 'wb') as filecache:
-                        dump(currcache, filecache)
 
                 #now, update the LRU cache -- if this was being done in-memory,
                 #there are more efficient algorithms... but since we're doing
@@ -496,11 +495,26 @@ class busgraph_cache:
                     if x != shortcode:
                         newLRU.append(x)
 
+                #a process that was stopped halfway may have left a cache file
+                #that isn't in the LRU, or a temporary file
+                listed = {*newLRU, ".lock", ".lru"}
+                for name in sorted(set(os.listdir(basedir)).difference(listed)):
+                    if name.endswith('~'):
+                        os.remove(os.path.join(basedir, name))
+                    else:
+                        newLRU.append(name)
+
                 #this violates atomicity, but it's okay -- at worst, we'll need
                 #to recompute a deleted file that still has an entry in the LRU
                 while len(newLRU) > __lru_size:
                     oldkey = newLRU.pop()
-                    os.remove(os.path.join(basedir, oldkey))
+                    try:
+                        os.remove(os.path.join(basedir, oldkey))
+                    except FileNotFoundError:
+                        pass
+                if update:
+                    with file_context.open(cachefile, 'wb') as filecache:
+                        dump(currcache, filecache)
                 with file_context.open(lrufile, 'wb') as lru:
                     dump(newLRU, lru)
 
-- 
2.43.0


From 9f4509713c5ded25c0fe0fe5a47f1f0e8e06d420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:10 +0000
Subject: [PATCH 13/30] fix: clique cache files are written to disk before they
 replace the old ones

---
 minorminer/busclique.pyx | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index a80844b..97f0e9c 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -515,8 +515,10 @@ class busgraph_cache:
                 if update:
                     with file_context.open(cachefile, 'wb') as filecache:
                         dump(currcache, filecache)
+                        file_context.sync(cachefile)
                 with file_context.open(lrufile, 'wb') as lru:
                     dump(newLRU, lru)
+                    file_context.sync(lrufile)
 
                 #perform the copy-on-write for the lrufile and cachefile, while
                 #nobody else can read, or replace, those files
@@ -1357,8 +1359,13 @@ class copy_on_close_context:
             self.files[file_name] = temp_name, file_obj
             return file_obj
 
+    def sync(self, file_name):
+        #the contents must reach the disk before the new name does
+        _, file_obj = self.files[file_name]
+        file_obj.flush()
+        os.fsync(file_obj.fileno())
+
     def close(self):
-        for file_name, (temp_name, file_obj) in self.files.items():
-            file_obj.close()
+        for file_name, (temp_name, _) in self.files.items():
             os.replace(temp_name, file_name)
 
-- 
2.43.0


From 094d8edf53d4782b089754dfa7b021f26d8349f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:02 +0000
Subject: [PATCH 14/30] fix: a clique cache file that can't be examined isn't
 one that doesn't exist

---
 minorminer/busclique.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index 97f0e9c..27b28ca 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -471,10 +471,10 @@ class busgraph_cache:
             #this solves inter-process safety?
             with fasteners.InterProcessLock(lockfile):
                 cachefile = os.path.join(basedir, str(shortcode))
-                if os.path.exists(cachefile):
+                try:
                     with open(cachefile, 'rb') as filecache:
                         currcache = load(filecache)
-                else:
+                except FileNotFoundError:
                     currcache = {}
                 cache = None if force_write else currcache.get(identifier)
                 update = cache is None
-- 
2.43.0


From 173bef99c3cc70131139dabb7c62915238f389bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:02 +0000
Subject: [PATCH 15/30] fix: two first users of the clique cache may create its
 directory at once

---
 minorminer/busclique.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index 27b28ca..512f79b 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -203,7 +203,8 @@ class busgraph_cache:
         Returns:
             str
         """
-        return homebase.user_data_dir('busclique', 'dwave', version)
+        #homebase isn't safe against others creating the directory
+        return homebase.user_data_dir('busclique', 'dwave', version, create=False)
 
     @staticmethod
     def clear_all_caches():
-- 
2.43.0


From af037e8b84c37a59084ebb245328278c2b6ccf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:33 +0000
Subject: [PATCH 16/30] fix: inserting and merging keep the cliques that are
 stored on disk

---
 minorminer/busclique.pyx | 207 ++++++++++++++++++++++-----------------
 1 file changed, 118 insertions(+), 89 deletions(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index 512f79b..e1ddaa3 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -164,18 +164,13 @@ class busgraph_cache:
                               "dwave.graphs.zephyr_graph"))
         self._graph = graphclass(g, seed=seed, compute_identifier=True)
         self._cliques = None
+        self._unwritten = []
         self._bicliques = None
 
-    def _ensure_clique_cache(self, blank=False):
+    def _ensure_clique_cache(self):
         """Fetch/compute the clique cache, if it's not already in memory."""
         if self._cliques is None:
-            if blank:
-                self._cliques = _make_clique_cache([[]])
-            else:
-                self._cliques = self._fetch_cache(
-                    'clique',
-                    self._graph.cliques
-                )
+            self._cliques = self._fetch_cache('clique', self._graph.cliques)
 
     def _ensure_biclique_cache(self):
         """Fetch/compute the clique cache, if it's not already in memory."""
@@ -284,16 +279,21 @@ class busgraph_cache:
         else:
             cache = enumerate(cache)
 
-        empty = True
+        cliques = _make_clique_cache([[]])
         for size, emb in cache:
-            empty = False
-            self.insert_clique_embedding(emb, write_to_disk=False, direct=True)
-
-        if empty:
-            self._ensure_clique_cache(blank=True)
+            cliques = _store_clique(self._sorted_chains(emb), cliques)
 
         if write_to_disk:
-            self._fetch_cache('clique', lambda: self._cliques, force_write=True)
+            self._cliques = self._fetch_cache('clique', lambda: cliques, lambda stored: cliques)
+            self._unwritten = []
+        else:
+            self._cliques = cliques
+            self._unwritten = [lambda stored: cliques]
+
+    def _sorted_chains(self, emb):
+        if not isinstance(emb, dict):
+            emb = dict(enumerate(emb))
+        return sorted(self._graph.delabel(emb).values(), key=len)
 
     def insert_clique_embedding(self, emb, write_to_disk=True, quality_function=None, direct=False):
         """Inserts a clique embedding into the cache.
@@ -325,24 +325,11 @@ class busgraph_cache:
                 embeddings are retained when their chainlength is shorter than
                 the old.
         """
-        if not isinstance(emb, dict):
-            emb = dict(enumerate(emb))
-        emb = self._graph.delabel(emb)
-        emb = sorted(emb.values(), key=len)
+        emb = self._sorted_chains(emb)
         if direct:
             if quality_function is not None:
                 raise ValueError("quality_function is ignored for direct insertion")
-            self._ensure_clique_cache(blank=True)
-            raw = self._cliques['raw']
-            key = len(raw)
-            raw.append(emb)
-            by_length = self._cliques['length']
-            self._cliques['size'][len(emb)] = key
-            length = len(emb[-1]) if emb else 0
-            if length not in by_length or len(raw[by_length[length]]) < len(emb):
-                by_length[length] = key
-            if write_to_disk:
-                self._fetch_cache('clique', lambda: self._cliques, force_write=True)
+            self._modify_cliques(lambda stored: _store_clique(emb, stored), write_to_disk)
         else:
             max_length = max(map(len, emb)) if emb else 0
             emb_list = [[c for c in emb if len(c) <= i] for i in range(max_length+1)]
@@ -370,66 +357,33 @@ class busgraph_cache:
                 If True, the merged cache will be written to disk.
                 Otherwise, the cache will only be updated in memory.
         """
-        cdef vector[embedding_t] embs
-        self._ensure_clique_cache(blank=True)
         if isinstance(cache, busgraph_cache):
             cache._ensure_clique_cache()
             cache = cache._cliques
-        raw0 = cache['raw']
-        raw1 = self._cliques['raw']
-        used = {}
-
-        size = {}
-        size0 = cache['size']
-        size1 = self._cliques['size']
-        for i in sorted(set(size0).union(size1)):
-            key0 = size0.get(i)
-            key1 = size1.get(i)
-            if key1 is None:
-                key = used.setdefault((key0, 0), len(used))
-            elif key0 is None:
-                key = used.setdefault((key1, 1), len(used))
-            else:
-                if i == 0:
-                    qual0 = qual1 = 0
-                elif quality_function is None:
-                    # by default, shortest chainlength is highest quality
-                    qual0 = -len(raw0[key0][i-1])
-                    qual1 = -len(raw1[key1][i-1])
-                else:
-                    qual0 = quality_function(raw0[key0][:i])
-                    qual1 = quality_function(raw1[key1][:i])
-                if qual0 > qual1:
-                    key = used.setdefault((key0, 0), len(used))
-                else:
-                    # if the quality is the same, retain the old embedding
-                    key = used.setdefault((key1, 1), len(used))
-            size[i] = key
-
-        length = {}
-        length0 = cache['length']
-        length1 = self._cliques['length']
-        for i in sorted(set(length0).union(length1)):
-            key0 = length0.get(i)
-            key1 = length1.get(i)
-            if key1 is None:
-                key = used.setdefault((key0, 0), len(used))
-            elif key0 is None:
-                key = used.setdefault((key1, 1), len(used))
-            elif len(raw0[key0]) > len(raw1[key1]):
-                # pick the larger embedding
-                key = used.setdefault((key0, 0), len(used))
-            else:
-                # if the embeddings have the same size, retain the old one
-                key = used.setdefault((key1, 1), len(used))
-            length[i] = key
 
-        raw = [raw0[key] if i == 0 else raw1[key] for (key, i) in used]
-        self._cliques = {"raw": raw, "size": size, "length": length}
+        def merge(stored):
+            return _merge_clique_caches(cache, stored, quality_function)
+
+        self._modify_cliques(merge, write_to_disk)
+
+    def _modify_cliques(self, modify, write_to_disk):
+        """Replaces the clique cache with ``modify(cache)``.  What is on disk may
+        have been changed by others in the meantime; so this, and everything
+        that was only done in memory so far, is done to that."""
         if write_to_disk:
-            self._fetch_cache('clique', lambda: self._cliques, force_write=True)
+            count = len(self._unwritten)
+            def update(stored):
+                for unwritten in self._unwritten[:count]:
+                    stored = unwritten(stored)
+                return modify(stored)
+            self._cliques = self._fetch_cache('clique', self._graph.cliques, update)
+            del self._unwritten[:count]
+        else:
+            self._ensure_clique_cache()
+            self._cliques = modify(self._cliques)
+            self._unwritten.append(modify)
 
-    def _fetch_cache(self, dirname, compute, force_write=False):
+    def _fetch_cache(self, dirname, compute, update=None):
         """This is an ad-hoc implementation of a file-cache using a LRU strategy.
         It's intended to be platform independent, thread- and multiprocess-safe,
         and reasonably performant -- I couldn't find a ready-made solution that
@@ -477,11 +431,13 @@ class busgraph_cache:
                         currcache = load(filecache)
                 except FileNotFoundError:
                     currcache = {}
-                cache = None if force_write else currcache.get(identifier)
-                update = cache is None
-                if update:
+                cache = currcache.get(identifier)
+                modified = cache is None or update is not None
+                if cache is None:
                     cache = compute()
-                    currcache[identifier] = cache
+                if update is not None:
+                    cache = update(cache)
+                currcache[identifier] = cache
 
                 #now, update the LRU cache -- if this was being done in-memory,
                 #there are more efficient algorithms... but since we're doing
@@ -513,7 +469,7 @@ class busgraph_cache:
                         os.remove(os.path.join(basedir, oldkey))
                     except FileNotFoundError:
                         pass
-                if update:
+                if modified:
                     with file_context.open(cachefile, 'wb') as filecache:
                         dump(currcache, filecache)
                         file_context.sync(cachefile)
@@ -717,6 +673,79 @@ cdef dict _make_clique_cache(vector[embedding_t] &embs):
                 break
     return {'raw': raw, 'size': by_size, 'length': by_length}
 
+cdef dict _store_clique(list emb, dict cache):
+    """
+    Returns a copy of a clique cache, in which the embedding replaces the one of
+    its size.  The chains must be sorted by length.
+    """
+    cdef list raw = list(cache['raw'])
+    cdef dict by_size = dict(cache['size'])
+    cdef dict by_length = dict(cache['length'])
+    key = len(raw)
+    raw.append(emb)
+    by_size[len(emb)] = key
+    length = len(emb[-1]) if emb else 0
+    if length not in by_length or len(raw[by_length[length]]) < len(emb):
+        by_length[length] = key
+    return {'raw': raw, 'size': by_size, 'length': by_length}
+
+cdef dict _merge_clique_caches(dict cache0, dict cache1, quality_function):
+    """
+    Merge two clique caches, giving preference to the second where their quality
+    is the same -- see busgraph_cache.merge_clique_cache for more info.
+    """
+    raw0 = cache0['raw']
+    raw1 = cache1['raw']
+    used = {}
+
+    size = {}
+    size0 = cache0['size']
+    size1 = cache1['size']
+    for i in sorted(set(size0).union(size1)):
+        key0 = size0.get(i)
+        key1 = size1.get(i)
+        if key1 is None:
+            key = used.setdefault((key0, 0), len(used))
+        elif key0 is None:
+            key = used.setdefault((key1, 1), len(used))
+        else:
+            if i == 0:
+                qual0 = qual1 = 0
+            elif quality_function is None:
+                # by default, shortest chainlength is highest quality
+                qual0 = -len(raw0[key0][i-1])
+                qual1 = -len(raw1[key1][i-1])
+            else:
+                qual0 = quality_function(raw0[key0][:i])
+                qual1 = quality_function(raw1[key1][:i])
+            if qual0 > qual1:
+                key = used.setdefault((key0, 0), len(used))
+            else:
+                # if the quality is the same, retain the old embedding
+                key = used.setdefault((key1, 1), len(used))
+        size[i] = key
+
+    length = {}
+    length0 = cache0['length']
+    length1 = cache1['length']
+    for i in sorted(set(length0).union(length1)):
+        key0 = length0.get(i)
+        key1 = length1.get(i)
+        if key1 is None:
+            key = used.setdefault((key0, 0), len(used))
+        elif key0 is None:
+            key = used.setdefault((key1, 1), len(used))
+        elif len(raw0[key0]) > len(raw1[key1]):
+            # pick the larger embedding
+            key = used.setdefault((key0, 0), len(used))
+        else:
+            # if the embeddings have the same size, retain the old one
+            key = used.setdefault((key1, 1), len(used))
+        length[i] = key
+
+    raw = [raw0[key] if i == 0 else raw1[key] for (key, i) in used]
+    return {"raw": raw, "size": size, "length": length}
+
 cdef _keep_biclique_key(tuple key0, tuple key1, dict chainlength):
     """
     Helper function for `_make_biclique_cache`.  Each "key" is a pair of ints
-- 
2.43.0


From 78c47558d80c79704ec510d381db863ebfaee0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:33 +0000
Subject: [PATCH 17/30] fix: an exported clique cache can be imported again

---
 minorminer/busclique.pyx | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index e1ddaa3..e1d40be 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -252,7 +252,7 @@ class busgraph_cache:
         if sparse:
             cache = {i: raw[s][:i] for i, s in size.items()}
         else:
-            cache = [raw[size[i]][:i] if i in size else () for i in range(max(size))]
+            cache = [raw[size[i]][:i] if i in size else () for i in range(max(size) + 1)]
         if compress:
             cache = gzip.compress(dumps(cache).encode('utf8'))
         return cache
@@ -281,7 +281,10 @@ class busgraph_cache:
 
         cliques = _make_clique_cache([[]])
         for size, emb in cache:
-            cliques = _store_clique(self._sorted_chains(emb), cliques)
+            #like get_clique_cache, this uses the integer labels
+            chains = emb.values() if isinstance(emb, dict) else emb
+            emb = sorted(map(tuple, chains), key=len)
+            cliques = _store_clique(emb, cliques)
 
         if write_to_disk:
             self._cliques = self._fetch_cache('clique', lambda: cliques, lambda stored: cliques)
@@ -290,11 +293,6 @@ class busgraph_cache:
             self._cliques = cliques
             self._unwritten = [lambda stored: cliques]
 
-    def _sorted_chains(self, emb):
-        if not isinstance(emb, dict):
-            emb = dict(enumerate(emb))
-        return sorted(self._graph.delabel(emb).values(), key=len)
-
     def insert_clique_embedding(self, emb, write_to_disk=True, quality_function=None, direct=False):
         """Inserts a clique embedding into the cache.
 
@@ -325,7 +323,10 @@ class busgraph_cache:
                 embeddings are retained when their chainlength is shorter than
                 the old.
         """
-        emb = self._sorted_chains(emb)
+        if not isinstance(emb, dict):
+            emb = dict(enumerate(emb))
+        emb = self._graph.delabel(emb)
+        emb = sorted(emb.values(), key=len)
         if direct:
             if quality_function is not None:
                 raise ValueError("quality_function is ignored for direct insertion")
@@ -522,7 +523,10 @@ class busgraph_cache:
         length = self._cliques['length'] or [0]
 
         if 0 < chainlength <= max(length):
-            return self._graph.relabel(dict(enumerate(embs[length[chainlength]])))
+            # a cache that was imported may not have an embedding for each length
+            key = max((i for i in length if i <= chainlength),
+                      key=lambda i: (len(embs[length[i]]), i))
+            return self._graph.relabel(dict(enumerate(embs[length[key]])))
         else:
             return {}
 
-- 
2.43.0


From a077923cec99cb4f33b08b47b82d78346779d0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:10 +0000
Subject: [PATCH 18/30] fix: mine_clique_embeddings finds its default bound for
 chimera graphs

---
 minorminer/busclique.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index e1d40be..1f4b89c 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -1352,9 +1352,9 @@ def mine_clique_embeddings(
             heuristic_bound = min(36, 12*(rows-1))
         elif bgc._family == "chimera":
             rows = g.graph['rows']
-            cols = g.graph['cols']
+            cols = g.graph['columns']
             tile = g.graph['tile']
-            heuristic_bound = (min(tile*rows, tile*cols)+3)/4
+            heuristic_bound = (min(tile*rows, tile*cols)+3)//4
         else:
             raise NotImplementedError("graph family not supported")
 
-- 
2.43.0


From abcbfd87b687b633a44e82108e74efb7e806c821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:01 +0000
Subject: [PATCH 19/30] fix: the clique cache tells the seeds of pegasus graphs
 apart

pegasus_spec_base::serialize left out the fields of its base class, among
them the seed, so computations with different seeds shared one cache entry.
---
 include/busclique/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/busclique/util.hpp b/include/busclique/util.hpp
index d79ad00..81f0930 100644
--- a/include/busclique/util.hpp
+++ b/include/busclique/util.hpp
@@ -216,7 +216,7 @@ class pegasus_spec_base : public topo_spec_base {
 
     template<typename serialize_tag, typename ...Args>
     size_t serialize(serialize_tag, uint8_t *output, const Args &...args) const {
-        return _serialize(serialize_tag{}, output, offsets, args...);
+        return super::serialize(serialize_tag{}, output, offsets, args...);
     }
 
   protected:
-- 
2.43.0


From d02e38f4a06cf8a497d1d363db7950149d828fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:53 +0000
Subject: [PATCH 20/30] fix: resetting a topology restores the order of its bad
 edges

The masks drawn after reset() depended on the computations done before, so a
busgraph_cache object gave different embeddings depending on its history.
---
 include/busclique/topo_cache.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/busclique/topo_cache.hpp b/include/busclique/topo_cache.hpp
index cf72f53..0bb788d 100644
--- a/include/busclique/topo_cache.hpp
+++ b/include/busclique/topo_cache.hpp
@@ -72,6 +72,9 @@ class topo_cache {
         if(mask_num > 0) {
             mask_num = 0;
             rng = fastrng(topo.seed);
+            //next() reorders bad_edges
+            bad_edges.clear();
+            compute_bad_edges();
             next();
         }
     }
-- 
2.43.0


From 2de704f525e3654ea79e657edd1a97b2df9f2718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:24 +0000
Subject: [PATCH 21/30] fix: the identifier of a perfect pegasus graph stays
 what it was

Only graphs with bad edges have cliques that depend on the seed, so only
those include it in their identifier.
---
 include/busclique/topo_cache.hpp | 4 ++++
 include/busclique/util.hpp       | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/busclique/topo_cache.hpp b/include/busclique/topo_cache.hpp
index 0bb788d..3be9aa8 100644
--- a/include/busclique/topo_cache.hpp
+++ b/include/busclique/topo_cache.hpp
@@ -81,6 +81,10 @@ class topo_cache {
 
     template<typename serialize_tag>
     size_t serialize(serialize_tag, uint8_t *output) const {
+        //the seed decides how bad edges are avoided, and not every topo_spec
+        //serializes it
+        if (bad_edges.size())
+            return topo.serialize(serialize_tag{}, output, topo.seed, nodemask, edgemask, badmask);
         return topo.serialize(serialize_tag{}, output, nodemask, edgemask, badmask);
     }
 
diff --git a/include/busclique/util.hpp b/include/busclique/util.hpp
index 81f0930..d79ad00 100644
--- a/include/busclique/util.hpp
+++ b/include/busclique/util.hpp
@@ -216,7 +216,7 @@ class pegasus_spec_base : public topo_spec_base {
 
     template<typename serialize_tag, typename ...Args>
     size_t serialize(serialize_tag, uint8_t *output, const Args &...args) const {
-        return super::serialize(serialize_tag{}, output, offsets, args...);
+        return _serialize(serialize_tag{}, output, offsets, args...);
     }
 
   protected:
-- 
2.43.0


From 657e5122edc6e55da2db69ccdad6d5808c09923b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:43 +0000
Subject: [PATCH 22/30] fix: finding a clique within one unit cell terminates

cell_cache::inflate cleared the bits it had handled after its loop, so
find_clique_embedding(use_cache=False) of 3 or 4 nodes on chimera and zephyr
graphs appended chains until memory ran out.
---
 include/busclique/cell_cache.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/busclique/cell_cache.hpp b/include/busclique/cell_cache.hpp
index c629907..9390436 100644
--- a/include/busclique/cell_cache.hpp
+++ b/include/busclique/cell_cache.hpp
@@ -69,9 +69,9 @@ class cell_cache {
             vector<size_t> &chain = emb.back();
             topo.construct_line(0, vert(x), vert(y), vert(y), first_bit[k0], chain);
             topo.construct_line(1, horz(y), horz(x), horz(x), first_bit[k1], chain);
+            k0 ^= mask_bit[first_bit[k0]];
+            k1 ^= mask_bit[first_bit[k1]];
         }
-        k0 ^= mask_bit[first_bit[k0]];
-        k1 ^= mask_bit[first_bit[k1]];
     }
 
 };
-- 
2.43.0


From 3e0767aacd2bea4f97afe7ccd84b1540ff140ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:14 +0000
Subject: [PATCH 23/30] fix: running out of memory raises MemoryError instead
 of ending the process

Calls of c++ functions that allocate were not declared to raise, exceptions
other than minorminer's own escaped from handle_exceptions, and copies of
containers took place where no exception is caught.
---
 minorminer/_minorminer.pyx   |   5 +-
 minorminer/_minorminer_h.pxi |  14 ++---
 minorminer/busclique.pyx     | 108 +++++++++++++++++++++++++----------
 minorminer/busclique_h.pxi   |  42 +++++++-------
 minorminer/src/pyutil.hpp    |   8 +++
 5 files changed, 115 insertions(+), 62 deletions(-)

diff --git a/minorminer/_minorminer.pyx b/minorminer/_minorminer.pyx
index 53aad8f..f36f4f3 100644
--- a/minorminer/_minorminer.pyx
+++ b/minorminer/_minorminer.pyx
@@ -289,7 +289,7 @@ def find_embedding(S, T, **params):
     except EmptySourceGraphError:
         return {}
 
-    cdef vector[int] chain
+    cdef size_t i
     cdef vector[vector[int]] chains
     cdef int success = findEmbedding(_in.Sg, _in.Tg, _in.opts, chains)
 
@@ -298,8 +298,7 @@ def find_embedding(S, T, **params):
     rchain = {}
     if chains.size():
         for v in range(nc-_in.pincount):
-            chain = chains[v]
-            rchain[_in.SL.label(v)] = [_in.TL.label(z) for z in chain]
+            rchain[_in.SL.label(v)] = [_in.TL.label(chains[v][i]) for i in range(chains[v].size())]
 
     if _in.opts.return_overlap:
         return rchain, success
diff --git a/minorminer/_minorminer_h.pxi b/minorminer/_minorminer_h.pxi
index ca9c138..4069d56 100644
--- a/minorminer/_minorminer_h.pxi
+++ b/minorminer/_minorminer_h.pxi
@@ -39,7 +39,7 @@ cdef class labeldict(dict):
 cdef extern from "<memory>" namespace "std":
     cdef cppclass shared_ptr[T]:
         shared_ptr() nogil
-        void reset(T*)
+        void reset(T*) except +
 
     cdef cppclass unique_ptr[T]:
         unique_ptr() nogil
@@ -79,19 +79,19 @@ cdef extern from "../include/find_embedding/util.hpp" namespace "find_embedding"
 
 cdef extern from "src/pyutil.hpp" namespace "":
     cppclass LocalInteractionPython(LocalInteraction):
-        LocalInteractionPython()
+        LocalInteractionPython() except +
 
     ctypedef void (*cython_callback)(void *, int, const string &)
 
     cppclass LocalInteractionLogger(LocalInteraction):
-        LocalInteractionLogger(cython_callback, void *)
+        LocalInteractionLogger(cython_callback, void *) except +
 
     void handle_exceptions()
 
 cdef extern from "../include/find_embedding/graph.hpp" namespace "graph":
     cppclass input_graph:
         input_graph()
-        void push_back(int,int)
+        void push_back(int,int) except +
         int num_nodes()
         void clear()
 
@@ -119,11 +119,11 @@ cdef extern from "../include/find_embedding/chain.hpp" namespace "find_embedding
         pathfinder_wrapper() except +handle_exceptions
         parameter_processor pp
         unique_ptr[pathfinder_public_interface] pf
-        pathfinder_wrapper(input_graph &, input_graph &, optional_parameters &)
+        pathfinder_wrapper(input_graph &, input_graph &, optional_parameters &) except +handle_exceptions
         int heuristicEmbedding() except +handle_exceptions
         int num_vars()
-        void get_chain(int, vector[int] &)
-        void set_initial_chains(chainmap &)
+        void get_chain(int, vector[int] &) except +handle_exceptions
+        void set_initial_chains(chainmap &) except +handle_exceptions
         void quickPass(const vector[int] &, int, int, bool, bool, double) except +handle_exceptions
         void quickPass(VARORDER, int, int, bool, bool, double) except +handle_exceptions
 
diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index 1f4b89c..bac50fe 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -279,7 +279,7 @@ class busgraph_cache:
         else:
             cache = enumerate(cache)
 
-        cliques = _make_clique_cache([[]])
+        cliques = _list_clique_cache([[]])
         for size, emb in cache:
             #like get_clique_cache, this uses the integer labels
             chains = emb.values() if isinstance(emb, dict) else emb
@@ -334,7 +334,7 @@ class busgraph_cache:
         else:
             max_length = max(map(len, emb)) if emb else 0
             emb_list = [[c for c in emb if len(c) <= i] for i in range(max_length+1)]
-            cache = _make_clique_cache(emb_list)
+            cache = _list_clique_cache(emb_list)
             self.merge_clique_cache(cache, quality_function, write_to_disk)
 
     def merge_clique_cache(self, cache, quality_function=None, write_to_disk=True):
@@ -661,22 +661,35 @@ cdef dict _make_clique_cache(vector[embedding_t] &embs):
     `by_size` where `embs[by_size[j]]` is a clique embedding of size `j` whose
     maximum chainlength is minimized.
     """
-    cdef embedding_t emb
     cdef size_t maxsize = 0
     cdef size_t maxlength = 0
     cdef size_t i, j
     cdef dict by_size = {}
     cdef dict by_length = {}
     cdef list raw = []
-    for length, emb in enumerate(embs):
+    for j in range(embs.size()):
+        length = j
         by_length[length] = length
-        raw.append(tuple(map(tuple, emb)))
-        maxsize = max(emb.size(), maxsize)
+        raw.append(tuple(map(tuple, embs[j])))
+        maxsize = max(embs[j].size(), maxsize)
         for i in range(maxsize, -1, -1):
             if by_size.setdefault(i, length) != length:
                 break
     return {'raw': raw, 'size': by_size, 'length': by_length}
 
+cdef dict _list_clique_cache(list embs):
+    """
+    As _make_clique_cache, from a list of embeddings.
+    """
+    cdef vector[embedding_t] raw
+    cdef size_t i, j
+    raw.resize(len(embs))
+    for i in range(raw.size()):
+        raw[i].resize(len(embs[i]))
+        for j in range(raw[i].size()):
+            _read_nodes(embs[i][j], raw[i][j])
+    return _make_clique_cache(raw)
+
 cdef dict _store_clique(list emb, dict cache):
     """
     Returns a copy of a clique cache, in which the embedding replaces the one of
@@ -784,10 +797,16 @@ cdef dict _make_biclique_cache(vector[pair[pair[size_t, size_t],
     `x` such that K_{x, y} exists for any `y > 0`; and otherwise `max_side[x]`
     gives the largest value y for which K_{x, y} exists.
     """
-    cdef embedding_t emb
-    cdef dict raw = {(s0, s1): emb for (s0, s1), emb in embs if emb.size()}
-    cdef dict chainlength = {key: (max(map(len, emb)), min(map(len, emb)))
-                             for key, emb in embs if emb.size()}
+    cdef size_t i
+    cdef dict raw = {}
+    cdef dict chainlength = {}
+    cdef list emb
+    for i in range(embs.size()):
+        if embs[i].second.size():
+            key = (embs[i].first.first, embs[i].first.second)
+            emb = embs[i].second
+            raw[key] = emb
+            chainlength[key] = (max(map(len, emb)), min(map(len, emb)))
 
     cdef dict by_size = {}
     cdef dict by_length = {}
@@ -819,6 +838,20 @@ def _make_relabeler(f):
         return {v: tuple(f(chain)) for v, chain in emb.items()}
     return _relabeler
 
+# Cython's own conversions from Python to c++ containers copy the result where an
+# exception of its allocation is not caught.
+cdef int _read_nodes(nodes, nodes_t &out) except -1:
+    out.clear()
+    for q in nodes:
+        out.push_back(<size_t>q)
+    return 0
+
+cdef int _read_edges(edges, edges_t &out) except -1:
+    out.clear()
+    for p, q in edges:
+        out.push_back(pair[size_t, size_t](<size_t>p, <size_t>q))
+    return 0
+
 ctypedef fused topo_cache_t:
     topo_cache[zephyr_spec]
     topo_cache[pegasus_spec]
@@ -882,13 +915,13 @@ cdef class _zephyr_busgraph:
         coordinates = dwave.graphs.zephyr_coordinates(rows, tile)
         cdef edges_t edges
         if g.graph['labels'] == 'int':
-            self.nodes = g.nodes()
-            edges = g.edges()
+            _read_nodes(g.nodes(), self.nodes)
+            _read_edges(g.edges(), edges)
             self.relabel = _trivial_relabeler
             self.delabel = _trivial_relabeler
         elif g.graph['labels'] == 'coordinate':
-            self.nodes = coordinates.iter_zephyr_to_linear(g.nodes())
-            edges = coordinates.iter_zephyr_to_linear_pairs(g.edges())
+            _read_nodes(coordinates.iter_zephyr_to_linear(g.nodes()), self.nodes)
+            _read_edges(coordinates.iter_zephyr_to_linear_pairs(g.edges()), edges)
             self.relabel = _make_relabeler(coordinates.iter_linear_to_zephyr)
             self.delabel = _make_relabeler(coordinates.iter_zephyr_to_linear)
         else:
@@ -943,7 +976,7 @@ cdef class _zephyr_busgraph:
         num, nodes = _num_nodes(nn)
         cdef embedding_t emb
         if num <= self.emb_1.size():
-            emb = self.emb_1
+            return self.relabel(dict(zip(nodes, self.emb_1)))
         elif not find_clique(self.topo[0], num, emb):
             return {}
         return self.relabel(dict(zip(nodes, emb)))
@@ -957,10 +990,12 @@ cdef class _zephyr_busgraph:
         return m, n, t, nodes, edges
 
     def fragment_nodes(self, nodes = None):
+        cdef nodes_t chain
         if nodes is None:
             return self.topo.fragment_nodes()
         else:
-            return self.topo.topo.fragment_nodes(<nodes_t&>nodes)
+            _read_nodes(nodes, chain)
+            return self.topo.topo.fragment_nodes(chain)
 
 cdef class _pegasus_busgraph:
     cdef topo_cache[pegasus_spec] *topo
@@ -986,22 +1021,29 @@ cdef class _pegasus_busgraph:
         else:
             internal_seed = seed
 
-        cdef pegasus_spec *peg = new pegasus_spec(rows, voff, hoff, internal_seed)
+        cdef vector[uint8_t] vertical_offsets, horizontal_offsets
+        for o in voff:
+            vertical_offsets.push_back(<uint8_t>o)
+        for o in hoff:
+            horizontal_offsets.push_back(<uint8_t>o)
+
+        cdef pegasus_spec *peg = new pegasus_spec(rows, vertical_offsets,
+                                                  horizontal_offsets, internal_seed)
         coordinates = dwave.graphs.pegasus_coordinates(rows)
         cdef edges_t edges
         if g.graph['labels'] == 'int':
-            self.nodes = g.nodes()
-            edges = g.edges()
+            _read_nodes(g.nodes(), self.nodes)
+            _read_edges(g.edges(), edges)
             self.relabel = _trivial_relabeler
             self.delabel = _trivial_relabeler
         elif g.graph['labels'] == 'coordinate':
-            self.nodes = coordinates.iter_pegasus_to_linear(g.nodes())
-            edges = coordinates.iter_pegasus_to_linear_pairs(g.edges())
+            _read_nodes(coordinates.iter_pegasus_to_linear(g.nodes()), self.nodes)
+            _read_edges(coordinates.iter_pegasus_to_linear_pairs(g.edges()), edges)
             self.relabel = _make_relabeler(coordinates.iter_linear_to_pegasus)
             self.delabel = _make_relabeler(coordinates.iter_pegasus_to_linear)
         elif g.graph['labels'] == 'nice':
-            self.nodes = coordinates.iter_nice_to_linear(g.nodes())
-            edges = coordinates.iter_nice_to_linear_pairs(g.edges())
+            _read_nodes(coordinates.iter_nice_to_linear(g.nodes()), self.nodes)
+            _read_edges(coordinates.iter_nice_to_linear_pairs(g.edges()), edges)
             self.relabel = _make_relabeler(coordinates.iter_linear_to_nice)
             self.delabel = _make_relabeler(coordinates.iter_nice_to_linear)
         else:
@@ -1056,7 +1098,7 @@ cdef class _pegasus_busgraph:
         num, nodes = _num_nodes(nn)
         cdef embedding_t emb
         if num <= self.emb_1.size():
-            emb = self.emb_1
+            return self.relabel(dict(zip(nodes, self.emb_1)))
         elif not find_clique(self.topo[0], num, emb):
             return {}
         return self.relabel(dict(zip(nodes, emb)))
@@ -1070,10 +1112,12 @@ cdef class _pegasus_busgraph:
         return m, n, t, nodes, edges
 
     def fragment_nodes(self, nodes = None):
+        cdef nodes_t chain
         if nodes is None:
             return self.topo.fragment_nodes()
         else:
-            return self.topo.topo.fragment_nodes(<nodes_t&>nodes)
+            _read_nodes(nodes, chain)
+            return self.topo.topo.fragment_nodes(chain)
 
 cdef class _chimera_busgraph:
     """Class for managing a single Chimera graph, and dispatches various
@@ -1112,13 +1156,13 @@ cdef class _chimera_busgraph:
         cdef edges_t edges
         coordinates = dwave.graphs.chimera_coordinates(rows, cols, tile)
         if g.graph['labels'] == 'int':
-            self.nodes = g.nodes()
-            edges = g.edges()
+            _read_nodes(g.nodes(), self.nodes)
+            _read_edges(g.edges(), edges)
             self.relabel = _trivial_relabeler
             self.delabel = _trivial_relabeler
         elif g.graph['labels'] == 'coordinate':
-            self.nodes = coordinates.iter_chimera_to_linear(g.nodes())
-            edges = coordinates.iter_chimera_to_linear_pairs(g.edges())
+            _read_nodes(coordinates.iter_chimera_to_linear(g.nodes()), self.nodes)
+            _read_edges(coordinates.iter_chimera_to_linear_pairs(g.edges()), edges)
             self.relabel = _make_relabeler(coordinates.iter_linear_to_chimera)
             self.delabel = _make_relabeler(coordinates.iter_chimera_to_linear)
         else:
@@ -1174,7 +1218,7 @@ cdef class _chimera_busgraph:
         num, nodes = _num_nodes(nn)
         cdef embedding_t emb
         if num <= self.emb_1.size():
-            emb = self.emb_1
+            return self.relabel(dict(zip(nodes, self.emb_1)))
         elif not find_clique(self.topo[0], num, emb):
             return {}
         return self.relabel(dict(zip(nodes, emb)))
@@ -1188,10 +1232,12 @@ cdef class _chimera_busgraph:
         return m, n, t, nodes, edges
 
     def fragment_nodes(self, nodes = None):
+        cdef nodes_t chain
         if nodes is None:
             return self.topo.fragment_nodes()
         else:
-            return self.topo.topo.fragment_nodes(<nodes_t&>nodes)
+            _read_nodes(nodes, chain)
+            return self.topo.topo.fragment_nodes(chain)
 
 def _default_quality_function(emb):
     """A function that returns a tuple corresponds to the "quality" of the embedding.
diff --git a/minorminer/busclique_h.pxi b/minorminer/busclique_h.pxi
index 5162e81..f62c30e 100644
--- a/minorminer/busclique_h.pxi
+++ b/minorminer/busclique_h.pxi
@@ -24,22 +24,22 @@ cdef extern from "../include/busclique/util.hpp" namespace "busclique":
         size_y dim_y
         size_x dim_x
         size_t shore
-        pegasus_spec(size_t, vector[uint8_t], vector[uint8_t], uint32_t)
-        nodes_t fragment_nodes(nodes_t)
+        pegasus_spec(size_t, vector[uint8_t], vector[uint8_t], uint32_t) except +
+        nodes_t fragment_nodes(nodes_t) except +
 
     cdef cppclass chimera_spec:
         size_y dim_y
         size_x dim_x
         size_t shore
-        chimera_spec(size_t, size_t, uint8_t, uint32_t)
-        nodes_t fragment_nodes(nodes_t)
+        chimera_spec(size_t, size_t, uint8_t, uint32_t) except +
+        nodes_t fragment_nodes(nodes_t) except +
 
     cdef cppclass zephyr_spec:
         size_y dim_y
         size_x dim_x
         size_t shore
-        zephyr_spec(size_t, uint8_t, uint32_t)
-        nodes_t fragment_nodes(nodes_t)
+        zephyr_spec(size_t, uint8_t, uint32_t) except +
+        nodes_t fragment_nodes(nodes_t) except +
 
     cdef cppclass serialize_size_tag:
         serialize_size_tag()
@@ -50,37 +50,37 @@ cdef extern from "../include/busclique/util.hpp" namespace "busclique":
 
 cdef extern from "../include/busclique/cell_cache.hpp" namespace "busclique":
     cdef cppclass cell_cache[T]:
-        cell_cache(T, nodes_t, edges_t)
+        cell_cache(T, nodes_t, edges_t) except +
 
 cdef extern from "../include/busclique/bundle_cache.hpp" namespace "busclique":
     cdef cppclass bundle_cache[T]:
-        bundle_cache(cell_cache[T] &)
+        bundle_cache(cell_cache[T] &) except +
 
 cdef extern from "../include/busclique/clique_cache.hpp" namespace "busclique":
     cdef cppclass clique_cache[T]:
-        clique_cache(cell_cache[T] &, bundle_cache[T] &, size_t)
-        clique_cache(cell_cache[T] &, bundle_cache[T] &, size_t, size_t)
+        clique_cache(cell_cache[T] &, bundle_cache[T] &, size_t) except +
+        clique_cache(cell_cache[T] &, bundle_cache[T] &, size_t, size_t) except +
 
     cdef cppclass clique_iterator[T]:
-        clique_iterator(cell_cache[T] &, clique_cache[T] &)
-        int next(embedding_t &)
+        clique_iterator(cell_cache[T] &, clique_cache[T] &) except +
+        int next(embedding_t &) except +
 
 cdef extern from "../include/busclique/topo_cache.hpp" namespace "busclique":
     cdef cppclass topo_cache[T]:
         T topo
-        topo_cache(T, nodes_t &, edges_t &)
-        size_t serialize[t](t, uint8_t *) const
-        nodes_t fragment_nodes() const
-        edges_t fragment_edges() const
-        void set_mask_bound(uint32_t)
+        topo_cache(T, nodes_t &, edges_t &) except +
+        size_t serialize[t](t, uint8_t *) except +
+        nodes_t fragment_nodes() except +
+        edges_t fragment_edges() except +
+        void set_mask_bound(uint32_t) except +
 
 cdef extern from "../include/busclique/find_clique.hpp" namespace "busclique":
-    int find_clique[T](topo_cache[T] &, size_t, embedding_t &)
-    void best_cliques[T](topo_cache[T], vector[embedding_t] &, embedding_t &)
-    int short_clique[T](T, nodes_t, edges_t, embedding_t &)
+    int find_clique[T](topo_cache[T] &, size_t, embedding_t &) except +
+    void best_cliques[T](topo_cache[T], vector[embedding_t] &, embedding_t &) except +
+    int short_clique[T](T, nodes_t, edges_t, embedding_t &) except +
 
 cdef extern from "../include/busclique/find_biclique.hpp" namespace "busclique":
-    void best_bicliques[T](topo_cache[T], vector[pair[pair[size_t, size_t], embedding_t]] &)
+    void best_bicliques[T](topo_cache[T], vector[pair[pair[size_t, size_t], embedding_t]] &) except +
 
 cdef extern from "../include/busclique/coordinate_types.hpp" namespace "busclique":
     cdef cppclass size_y:
diff --git a/minorminer/src/pyutil.hpp b/minorminer/src/pyutil.hpp
index 550a84e..3a24bae 100644
--- a/minorminer/src/pyutil.hpp
+++ b/minorminer/src/pyutil.hpp
@@ -13,6 +13,8 @@
 //    limitations under the License.
 
 #pragma once
+#include <exception>
+#include <new>
 #include "../../include/find_embedding/util.hpp"
 
 namespace {
@@ -71,6 +73,12 @@ void handle_exceptions() {
         PyErr_SetString(PyExc_RuntimeError, e.what());
     } catch (const find_embedding::CorruptEmbeddingException &e) {
         PyErr_SetString(PyExc_AssertionError, e.what());
+    } catch (const std::bad_alloc &) {
+        PyErr_NoMemory();
+    } catch (const std::exception &e) {
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+    } catch (...) {
+        PyErr_SetString(PyExc_RuntimeError, "unknown exception");
     }
 }
 
-- 
2.43.0


From 90c32e300f1452228f8eb1d1f439c5855dd40763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:45 +0000
Subject: [PATCH 24/30] fix: an interrupt that arrives in Python code called by
 the search isn't lost

The log callback, Python's writers of stdout and stderr and Cython's hasattr
drop the KeyboardInterrupt that a signal handler raises within them.
---
 minorminer/_minorminer.pyx | 25 +++++++++++++++++--------
 minorminer/src/pyutil.hpp  | 14 ++++++++++++--
 2 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/minorminer/_minorminer.pyx b/minorminer/_minorminer.pyx
index f36f4f3..de81753 100644
--- a/minorminer/_minorminer.pyx
+++ b/minorminer/_minorminer.pyx
@@ -308,15 +308,22 @@ def find_embedding(S, T, **params):
 class EmptySourceGraphError(RuntimeError):
     pass
 
+cdef extern from "Python.h":
+    void PyErr_SetInterrupt()
+
 # Even though this is marked as noexcept, exceptions raised by the logger will
 # still eventually be caught.
 cdef void wrap_logger(void *logger, int loglevel, const string &msg) noexcept:
-    if loglevel == 0:
-        (<object>logger).error(msg.rstrip())
-    elif 1 <= loglevel < 4:
-        (<object>logger).info(msg.rstrip())
-    else:
-        (<object>logger).debug(msg.rstrip())
+    try:
+        if loglevel == 0:
+            (<object>logger).error(msg.rstrip())
+        elif 1 <= loglevel < 4:
+            (<object>logger).info(msg.rstrip())
+        else:
+            (<object>logger).debug(msg.rstrip())
+    except KeyboardInterrupt:
+        # it isn't the logger's; the search sees it when it looks for signals
+        PyErr_SetInterrupt()
 
 cdef class _input_parser:
     cdef input_graph Sg, Tg
@@ -709,9 +716,11 @@ cdef _read_graph(input_graph &g, E):
     cdef labeldict L = labeldict()
     cdef bool nodescan = False
     cdef int i, last
-    if hasattr(E, 'edges'):
+    # unlike hasattr, this only takes an AttributeError for an answer
+    edges = getattr(E, 'edges', None)
+    if edges is not None:
         G = E
-        E = E.edges()
+        E = edges()
         nodescan = True
     for a, b in E:
         g.push_back(L[a],L[b])
diff --git a/minorminer/src/pyutil.hpp b/minorminer/src/pyutil.hpp
index 3a24bae..85fa601 100644
--- a/minorminer/src/pyutil.hpp
+++ b/minorminer/src/pyutil.hpp
@@ -24,9 +24,19 @@ class LocalInteractionPython : public find_embedding::LocalInteraction {
     virtual ~LocalInteractionPython() {}
 
   private:
-    virtual void displayOutputImpl(int, const std::string &msg) const { PySys_WriteStdout("%s", msg.c_str()); }
+    // PySys_WriteStdout would drop an interrupt that arrives while the stream, if it is a Python object, is at work
+    static void write(const char *stream, FILE *fallback, const std::string &msg) {
+        PyObject *file = PySys_GetObject(stream);
+        if (file == nullptr || PyFile_WriteString(msg.c_str(), file)) {
+            if (file != nullptr && PyErr_ExceptionMatches(PyExc_KeyboardInterrupt)) PyErr_SetInterrupt();
+            PyErr_Clear();
+            fputs(msg.c_str(), fallback);
+        }
+    }
+
+    virtual void displayOutputImpl(int, const std::string &msg) const { write("stdout", stdout, msg); }
 
-    virtual void displayErrorImpl(int, const std::string &msg) const { PySys_WriteStderr("%s", msg.c_str()); }
+    virtual void displayErrorImpl(int, const std::string &msg) const { write("stderr", stderr, msg); }
 
     virtual bool cancelledImpl() const {
         bool cancelled = static_cast<bool>(PyErr_CheckSignals());
-- 
2.43.0


From 469cd7c135be62a6cd98a3a09a5528e2076c670a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:08 +0000
Subject: [PATCH 25/30] fix: sublattice search honours its options, its limits
 and its caller's arguments

find_sublattice_embeddings dropped timeout, one_to_iterable, use_filter and shuffle_all_graphs on
its way to find_multiple_embeddings: chains of several nodes were not removed from the target (or
raised), and a search without tile ignored the time limit. max_num_emb=0 with use_tile_embedding
returned an embedding, and T_kwargs of the caller was changed.
---
 minorminer/utils/parallel_embeddings.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/minorminer/utils/parallel_embeddings.py b/minorminer/utils/parallel_embeddings.py
index 0aee924..06c0018 100644
--- a/minorminer/utils/parallel_embeddings.py
+++ b/minorminer/utils/parallel_embeddings.py
@@ -307,8 +307,7 @@ def _local_graph(T=None, T_family=None, T_kwargs=None):
             )
         return T.copy()
     else:
-        if T_kwargs is None:
-            T_kwargs = {}
+        T_kwargs = {} if T_kwargs is None else dict(T_kwargs)
         if T is not None:
             T_kwargs.update({"edge_list": T.edges, "node_list": T.nodes})
         if T_family == "chimera":
@@ -434,9 +433,13 @@ def find_sublattice_embeddings(
             S=S,
             T=T,
             max_num_emb=max_num_emb,
+            use_filter=use_filter,
             seed=seed,
             embedder=embedder,
             embedder_kwargs=embedder_kwargs,
+            one_to_iterable=one_to_iterable,
+            shuffle_all_graphs=shuffle_all_graphs,
+            timeout=timeout_at - perf_counter(),
         )
     if T is not None and T.graph.get("family", T_family) not in {
         "chimera",
@@ -533,6 +536,8 @@ def find_sublattice_embeddings(
             seed=seed,
             embedder=embedder,
             embedder_kwargs=embedder_kwargs,
+            one_to_iterable=one_to_iterable,
+            shuffle_all_graphs=shuffle_all_graphs,
             timeout=timeout_at - perf_counter(),
         )
         if len(defect_free_embs) == 0:
@@ -565,7 +570,7 @@ def find_sublattice_embeddings(
         sublattice_iter = sublattice_mappings(tile, _T)
 
     for f in sublattice_iter:
-        if perf_counter() > timeout_at:
+        if len(embs) >= max_num_emb or perf_counter() > timeout_at:
             break
         if use_tile_embedding:
             proposal = _mapped_proposal(tile_embedding, f, one_to_iterable)
@@ -583,6 +588,8 @@ def find_sublattice_embeddings(
                 seed=seed,
                 embedder=embedder,
                 embedder_kwargs=embedder_kwargs,
+                one_to_iterable=one_to_iterable,
+                shuffle_all_graphs=shuffle_all_graphs,
                 timeout=timeout_at - perf_counter(),
             )
         embs += sub_embs
-- 
2.43.0


From bf4dddd472dd367022133d762ddd3a8d9f6c68d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:19 +0000
Subject: [PATCH 26/30] fix: initial chains may name fixed variables and qubits
 of fixed chains

Such hints wrote outside the search's arrays; they are now left out, as the documentation of
fixed_chains has it. Fixed chains that share qubits no longer run out of qubit permutations.
---
 include/find_embedding/embedding.hpp  | 15 ++++++++++++---
 include/find_embedding/pathfinder.hpp |  2 +-
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/find_embedding/embedding.hpp b/include/find_embedding/embedding.hpp
index 2909add..3305362 100644
--- a/include/find_embedding/embedding.hpp
+++ b/include/find_embedding/embedding.hpp
@@ -86,10 +86,19 @@ class embedding {
 
         for (auto &vC : fixed_chains) fix_chain(vC.first, vC.second);
 
-        for (auto &vC : initial_chains)
-            if (!ep.fixed(vC.first)) set_chain(vC.first, vC.second);
-
+        // fixed chains stay as they are, and other chains don't use their qubits
+        map<int, vector<int>> chains;
         for (auto &vC : initial_chains) {
+            if (ep.fixed(vC.first)) continue;
+            vector<int> chain;
+            for (auto &q : vC.second)
+                if (!ep.reserved(q)) chain.push_back(q);
+            if (chain.empty()) continue;
+            set_chain(vC.first, chain);
+            chains.emplace(vC.first, std::move(chain));
+        }
+
+        for (auto &vC : chains) {
             int v = vC.first;
             auto &c = var_embedding[v];
             int root = vC.second[0];
diff --git a/include/find_embedding/pathfinder.hpp b/include/find_embedding/pathfinder.hpp
index 8aba8c3..7440357 100644
--- a/include/find_embedding/pathfinder.hpp
+++ b/include/find_embedding/pathfinder.hpp
@@ -129,7 +129,7 @@ class pathfinder_base : public pathfinder_public_interface {
               qubit_permutations() {
         vector<int> permutation(num_qubits);
         for (int q = num_qubits; q--;) permutation[q] = q;
-        for (int v = num_vars + num_reserved; v--;) {
+        for (int v = num_vars + std::max(num_fixed, num_reserved); v--;) {  // fixed chains may share qubits
             ep.shuffle(permutation.begin(), permutation.end());
             qubit_permutations.push_back(permutation);
         }
-- 
2.43.0


From 7988af12048a761ed11fde0d904d260b307eb9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:36 +0000
Subject: [PATCH 27/30] fix: a rejected quickpass doesn't count as the miner's
 first one

---
 minorminer/_minorminer.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minorminer/_minorminer.pyx b/minorminer/_minorminer.pyx
index de81753..26aee22 100644
--- a/minorminer/_minorminer.pyx
+++ b/minorminer/_minorminer.pyx
@@ -539,7 +539,6 @@ cdef class miner:
 
         if not self.quickpassed:
             clear_first = True
-            self.quickpassed = True
 
         if varorder is not None:
             for v in varorder:
@@ -550,6 +549,7 @@ cdef class miner:
             self.pf.quickPass(neworder, chainlength_bound, overlap_bound, local_search, clear_first, round_beta)
         else:
             self.pf.quickPass(strategy, chainlength_bound, overlap_bound, local_search, clear_first, round_beta)
+        self.quickpassed = True
 
         rchain = {}
         for v in range(self.pf.num_vars()-self._in.pincount):
-- 
2.43.0


From 453610c369fae67abc3dd2a8157268e84d128524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:33 +0000
Subject: [PATCH 28/30] fix: VARORDER_KEEP has no order to keep before another
 strategy was used

---
 include/find_embedding/embedding_problem.hpp | 2 +-
 include/find_embedding/pathfinder.hpp        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/find_embedding/embedding_problem.hpp b/include/find_embedding/embedding_problem.hpp
index cfc3d48..66a7b39 100644
--- a/include/find_embedding/embedding_problem.hpp
+++ b/include/find_embedding/embedding_problem.hpp
@@ -238,7 +238,7 @@ class embedding_problem_base {
               qubit_nbrs(q_n),
               var_nbrs(v_n),
               rand(0, 0xffffffff),
-              var_order_space(n_v),
+              var_order_space(),
               var_order_visited(n_v, 0),
               var_order_shuffle(n_v),
               exponent_margin(compute_margin()),
diff --git a/include/find_embedding/pathfinder.hpp b/include/find_embedding/pathfinder.hpp
index 7440357..512150d 100644
--- a/include/find_embedding/pathfinder.hpp
+++ b/include/find_embedding/pathfinder.hpp
@@ -636,7 +636,7 @@ class pathfinder_base : public pathfinder_public_interface {
         ep.initialized = 1;
         best_stats.clear();
         check_improvement(currEmbedding);
-        ep.improved = 1;
+        ep.improved = !params.skip_initialization;  // without an initialization there's no variable order to keep
         currEmbedding = bestEmbedding;
         for (int trial_patience = params.tries; !stopped && trial_patience-- && (!ep.embedded);) {
             int improvement_patience = params.max_no_improvement;
-- 
2.43.0


From 3b51039b09cad1d95dc5ece047f535a1892d1c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:28 +0000
Subject: [PATCH 29/30] fix: a pass that fails checks for timeouts and
 interrupts too

---
 include/find_embedding/pathfinder.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/find_embedding/pathfinder.hpp b/include/find_embedding/pathfinder.hpp
index 512150d..850edc1 100644
--- a/include/find_embedding/pathfinder.hpp
+++ b/include/find_embedding/pathfinder.hpp
@@ -248,7 +248,7 @@ class pathfinder_base : public pathfinder_public_interface {
         bool improved = false;
         for (auto &u : ep.var_order(VARORDER_PFS)) {
             ep.debug("finding a new chain for %d\n", u);
-            if (!find_chain(emb, u)) return -1;
+            if (!find_chain(emb, u)) return check_stops(-1);
 
             improved |= check_improvement(emb);
             if (ep.embedded) break;
@@ -283,7 +283,7 @@ class pathfinder_base : public pathfinder_public_interface {
                 emb.steal_all(u);
                 emb.tear_out(u);
                 if (!find_chain(emb, u, 0)) {
-                    return -1;
+                    return check_stops(-1);
                 }
             }
             improved |= check_improvement(emb);
@@ -302,7 +302,7 @@ class pathfinder_base : public pathfinder_public_interface {
         std::fill(qubit_permutations.begin() + 1, qubit_permutations.end(), qubit_permutations[0]);
         for (auto &u : ep.var_order(ep.improved ? VARORDER_KEEP : VARORDER_PFS)) {
             ep.debug("finding a new chain for %d\n", u);
-            if (!find_chain(emb, u)) return -1;
+            if (!find_chain(emb, u)) return check_stops(-1);
 
             improved |= check_improvement(emb);
         }
@@ -683,6 +683,7 @@ class pathfinder_base : public pathfinder_public_interface {
                         break;
                     case -1:
                         currEmbedding = bestEmbedding;
+                        stopped = check_stops(-1) == -2;
                         break;
                     case 1:
                         best_stats.clear();  // overwrite bestEmbedding for a real restart
-- 
2.43.0


From 7bf3fa5a406bd033d0ded86dab8c90af86999f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:03 +0000
Subject: [PATCH 30/30] fix: threads that share a busgraph_cache don't lose
 what was stored in memory

While one thread wrote to disk, cliques another stored in memory only were
dropped from the list of those yet to be written, or overwritten in memory.
---
 minorminer/busclique.pyx | 44 ++++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index bac50fe..e3713f2 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -163,14 +163,17 @@ class busgraph_cache:
                               "dwave.graphs.chimera_graph or "
                               "dwave.graphs.zephyr_graph"))
         self._graph = graphclass(g, seed=seed, compute_identifier=True)
+        #threads may share this object
+        self._cliques_lock = threading.RLock()
         self._cliques = None
         self._unwritten = []
         self._bicliques = None
 
     def _ensure_clique_cache(self):
         """Fetch/compute the clique cache, if it's not already in memory."""
-        if self._cliques is None:
-            self._cliques = self._fetch_cache('clique', self._graph.cliques)
+        with self._cliques_lock:
+            if self._cliques is None:
+                self._cliques = self._fetch_cache('clique', self._graph.cliques)
 
     def _ensure_biclique_cache(self):
         """Fetch/compute the clique cache, if it's not already in memory."""
@@ -286,12 +289,13 @@ class busgraph_cache:
             emb = sorted(map(tuple, chains), key=len)
             cliques = _store_clique(emb, cliques)
 
-        if write_to_disk:
-            self._cliques = self._fetch_cache('clique', lambda: cliques, lambda stored: cliques)
-            self._unwritten = []
-        else:
-            self._cliques = cliques
-            self._unwritten = [lambda stored: cliques]
+        with self._cliques_lock:
+            if write_to_disk:
+                self._cliques = self._fetch_cache('clique', lambda: cliques, lambda stored: cliques)
+                self._unwritten = []
+            else:
+                self._cliques = cliques
+                self._unwritten = [lambda stored: cliques]
 
     def insert_clique_embedding(self, emb, write_to_disk=True, quality_function=None, direct=False):
         """Inserts a clique embedding into the cache.
@@ -371,18 +375,18 @@ class busgraph_cache:
         """Replaces the clique cache with ``modify(cache)``.  What is on disk may
         have been changed by others in the meantime; so this, and everything
         that was only done in memory so far, is done to that."""
-        if write_to_disk:
-            count = len(self._unwritten)
-            def update(stored):
-                for unwritten in self._unwritten[:count]:
-                    stored = unwritten(stored)
-                return modify(stored)
-            self._cliques = self._fetch_cache('clique', self._graph.cliques, update)
-            del self._unwritten[:count]
-        else:
-            self._ensure_clique_cache()
-            self._cliques = modify(self._cliques)
-            self._unwritten.append(modify)
+        with self._cliques_lock:
+            if write_to_disk:
+                def update(stored):
+                    for unwritten in self._unwritten:
+                        stored = unwritten(stored)
+                    return modify(stored)
+                self._cliques = self._fetch_cache('clique', self._graph.cliques, update)
+                self._unwritten = []
+            else:
+                self._ensure_clique_cache()
+                self._cliques = modify(self._cliques)
+                self._unwritten.append(modify)
 
     def _fetch_cache(self, dirname, compute, update=None):
         """This is an ad-hoc implementation of a file-cache using a LRU strategy.
-- 
2.43.0

