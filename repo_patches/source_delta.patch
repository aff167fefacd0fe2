From e87f773b65acb0e0dfaac4709754ebc35ab548a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:45 +0000
Subject: [PATCH 01/66] fix: post-decrement of parallel::Atomic decrements
 instead of incrementing

---
 kaminpar-common/parallel/atomic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kaminpar-common/parallel/atomic.h b/kaminpar-common/parallel/atomic.h
index 3f06fcf..b1095f3 100644
--- a/kaminpar-common/parallel/atomic.h
+++ b/kaminpar-common/parallel/atomic.h
@@ -100,7 +100,7 @@ public:
   }
 
   T operator--(int) & noexcept {
-    return _value++;
+    return _value--;
   } // NOLINT
 
   T operator+=(T arg) noexcept {
-- 
2.43.0


From a5d97eff1ce1c741359873457f47b012f4930659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:34 +0000
Subject: [PATCH 02/66] fix: contracting an empty graph reads before the leader
 mapping

---
 .../coarsening/contraction/cluster_contraction_preprocessing.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kaminpar-shm/coarsening/contraction/cluster_contraction_preprocessing.cc b/kaminpar-shm/coarsening/contraction/cluster_contraction_preprocessing.cc
index 8e7e612..e406498 100644
--- a/kaminpar-shm/coarsening/contraction/cluster_contraction_preprocessing.cc
+++ b/kaminpar-shm/coarsening/contraction/cluster_contraction_preprocessing.cc
@@ -53,7 +53,7 @@ compute_mapping(const Graph &graph, StaticArray<NodeID> clustering, MemoryContex
 
   fill_leader_mapping(graph, clustering, m_ctx.leader_mapping);
   StaticArray<NodeID> mapping = compute_mapping(graph, std::move(clustering), m_ctx.leader_mapping);
-  const NodeID c_n = m_ctx.leader_mapping[graph.n() - 1];
+  const NodeID c_n = graph.n() == 0 ? 0 : m_ctx.leader_mapping[graph.n() - 1];
 
   TIMED_SCOPE("Deallocation") {
     m_ctx.leader_mapping.free();
-- 
2.43.0


From 23995ae5f09949f38aa72e14c41fb99b3c70e642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:29 +0000
Subject: [PATCH 03/66] fix: partitioning into one block returns more than one
 block

All partitioning schemes start by computing a bipartition of the (coarsest)
graph, even if only one block was requested. Return the trivial partition
instead.
---
 kaminpar-shm/kaminpar.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kaminpar-shm/kaminpar.cc b/kaminpar-shm/kaminpar.cc
index 7d36a4e..db66317 100644
--- a/kaminpar-shm/kaminpar.cc
+++ b/kaminpar-shm/kaminpar.cc
@@ -368,6 +368,11 @@ EdgeWeight KaMinPar::compute_partition(std::span<BlockID> partition) {
 
   // Perform actual partitioning
   PartitionedGraph p_graph = [&] {
+    // All partitioning schemes start by computing a bipartition, thus handle k = 1 separately
+    if (_ctx.partition.k == 1) {
+      return PartitionedGraph(*_graph_ptr, 1, StaticArray<BlockID>(_graph_ptr->n()));
+    }
+
     auto partitioner = factory::create_partitioner(*_graph_ptr, _ctx);
     if (_output_level >= OutputLevel::DEBUG) {
       partitioner->enable_metrics_output();
-- 
2.43.0


From 3733809c511340ec893a31fe5dd96502720d2e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:29 +0000
Subject: [PATCH 04/66] fix: greedy balancer does not terminate if no block can
 take a node

An internal node that fits into no other block was put back into the priority
queue with the same priority and thus tried again forever.
---
 kaminpar-shm/refinement/balancer/greedy_balancer.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kaminpar-shm/refinement/balancer/greedy_balancer.cc b/kaminpar-shm/refinement/balancer/greedy_balancer.cc
index 02c1a7b..3841f79 100644
--- a/kaminpar-shm/refinement/balancer/greedy_balancer.cc
+++ b/kaminpar-shm/refinement/balancer/greedy_balancer.cc
@@ -201,9 +201,9 @@ private:
                 _marker.set(v);
               }
             });
-          } else {
+          } else if (to != from) {
             add_to_pq(from, u, u_weight, actual_relative_gain);
-          }
+          } // otherwise, there is no block that can take the node: do not try it again
         } else { // gain changed after insertion --> try again with new gain
           add_to_pq(from, u, _graph->node_weight(u), actual_relative_gain);
           IFSTATS(++_stats.num_pq_reinserts);
-- 
2.43.0


From 51f629fc0e66c048a4c69d117a156f9eb4693f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:07 +0000
Subject: [PATCH 05/66] fix: subgraph memory is freed while it is still needed

If the input graph is too small to be partitioned into all blocks on its own
level, the partition is extended once more after the memory was released.
---
 kaminpar-shm/partitioning/deep/deep_multilevel.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kaminpar-shm/partitioning/deep/deep_multilevel.cc b/kaminpar-shm/partitioning/deep/deep_multilevel.cc
index c6364bd..d646b60 100644
--- a/kaminpar-shm/partitioning/deep/deep_multilevel.cc
+++ b/kaminpar-shm/partitioning/deep/deep_multilevel.cc
@@ -397,7 +397,8 @@ void DeepMultilevelPartitioner::extend_partition(PartitionedGraph &p_graph, cons
     );
   }
 
-  if (_last_initial_partitioning_level == _coarsener->level()) {
+  if (_last_initial_partitioning_level == _coarsener->level() &&
+      p_graph.k() == _input_ctx.partition.k) {
     SCOPED_TIMER("Deallocation");
     _subgraph_memory.free();
     _extraction_mem_pool_ets.clear();
-- 
2.43.0


From 61febd6de68074ff013ad182ee296630a91bd46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:48 +0000
Subject: [PATCH 06/66] fix: number of degree buckets of an empty sorted graph

The search for the last nonempty bucket ran past the first bucket if the graph
(or the local part of a distributed graph) has no nodes.
---
 kaminpar-dist/datastructures/distributed_compressed_graph.cc | 2 +-
 kaminpar-dist/datastructures/distributed_csr_graph.cc        | 2 +-
 kaminpar-shm/datastructures/compressed_graph.cc              | 2 +-
 kaminpar-shm/datastructures/csr_graph.cc                     | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/kaminpar-dist/datastructures/distributed_compressed_graph.cc b/kaminpar-dist/datastructures/distributed_compressed_graph.cc
index bf64658..f6395c2 100644
--- a/kaminpar-dist/datastructures/distributed_compressed_graph.cc
+++ b/kaminpar-dist/datastructures/distributed_compressed_graph.cc
@@ -72,7 +72,7 @@ void DistributedCompressedGraph::init_degree_buckets() {
     std::copy(buckets.begin(), buckets.end(), _buckets.begin());
 
     auto last_nonempty_bucket =
-        std::find_if(_buckets.rbegin(), _buckets.rend(), [](const auto n) { return n > 0; });
+        std::find_if(_buckets.rbegin(), _buckets.rend() - 1, [](const auto n) { return n > 0; });
     _number_of_buckets = std::distance(_buckets.begin(), (last_nonempty_bucket + 1).base());
   } else {
     _buckets[1] = n();
diff --git a/kaminpar-dist/datastructures/distributed_csr_graph.cc b/kaminpar-dist/datastructures/distributed_csr_graph.cc
index 6c2f73b..b52ce2c 100644
--- a/kaminpar-dist/datastructures/distributed_csr_graph.cc
+++ b/kaminpar-dist/datastructures/distributed_csr_graph.cc
@@ -72,7 +72,7 @@ void DistributedCSRGraph::init_degree_buckets() {
     std::copy(buckets.begin(), buckets.end(), _buckets.begin());
 
     auto last_nonempty_bucket =
-        std::find_if(_buckets.rbegin(), _buckets.rend(), [](const auto n) { return n > 0; });
+        std::find_if(_buckets.rbegin(), _buckets.rend() - 1, [](const auto n) { return n > 0; });
     _number_of_buckets = std::distance(_buckets.begin(), (last_nonempty_bucket + 1).base());
   } else {
     _buckets[1] = n();
diff --git a/kaminpar-shm/datastructures/compressed_graph.cc b/kaminpar-shm/datastructures/compressed_graph.cc
index eb00685..cbbb656 100644
--- a/kaminpar-shm/datastructures/compressed_graph.cc
+++ b/kaminpar-shm/datastructures/compressed_graph.cc
@@ -59,7 +59,7 @@ void CompressedGraph::init_degree_buckets() {
     }
 
     auto last_nonempty_bucket =
-        std::find_if(_buckets.rbegin(), _buckets.rend(), [](const auto n) { return n > 0; });
+        std::find_if(_buckets.rbegin(), _buckets.rend() - 1, [](const auto n) { return n > 0; });
     _number_of_buckets = std::distance(_buckets.begin(), (last_nonempty_bucket + 1).base());
   } else {
     _buckets[1] = n();
diff --git a/kaminpar-shm/datastructures/csr_graph.cc b/kaminpar-shm/datastructures/csr_graph.cc
index 4700bd1..9417712 100644
--- a/kaminpar-shm/datastructures/csr_graph.cc
+++ b/kaminpar-shm/datastructures/csr_graph.cc
@@ -218,7 +218,7 @@ void CSRGraph::init_degree_buckets() {
         assert::heavy
     );
     auto last_nonempty_bucket =
-        std::find_if(_buckets.rbegin(), _buckets.rend(), [](const auto n) { return n > 0; });
+        std::find_if(_buckets.rbegin(), _buckets.rend() - 1, [](const auto n) { return n > 0; });
     _number_of_buckets = std::distance(_buckets.begin(), (last_nonempty_bucket + 1).base());
   } else {
     _buckets[1] = n();
-- 
2.43.0


From 9147a6bff8a45fc4e0a44218a3f7bb3344d2b28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 07/66] fix: subgraph memory of an unweighted graph is reused
 for a weighted graph

The thread-local memory was only resized if its arrays for nodes and edges were
too small, without regard to its (possibly empty) arrays for weights. A coarse
graph is unweighted if all its edges happen to have weight one.
---
 kaminpar-shm/partitioning/helper.cc | 42 +++++++++++++++--------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/kaminpar-shm/partitioning/helper.cc b/kaminpar-shm/partitioning/helper.cc
index 8eb408d..8628085 100644
--- a/kaminpar-shm/partitioning/helper.cc
+++ b/kaminpar-shm/partitioning/helper.cc
@@ -283,22 +283,23 @@ void extend_partition_lazy_extraction(
 
       if (subgraph_memory.nodes.size() < subgraph_memory_n) {
         subgraph_memory.nodes.resize(subgraph_memory_n, static_array::seq, static_array::noinit);
+      }
 
-        if (p_graph.is_node_weighted()) {
-          subgraph_memory.node_weights.resize(
-              subgraph_memory_n, static_array::seq, static_array::noinit
-          );
-        }
+      // Note: the memory might have been used for an unweighted graph before
+      if (p_graph.is_node_weighted() && subgraph_memory.node_weights.size() < subgraph_memory_n) {
+        subgraph_memory.node_weights.resize(
+            subgraph_memory_n, static_array::seq, static_array::noinit
+        );
       }
 
       if (subgraph_memory.edges.size() < num_block_edges) {
         subgraph_memory.edges.resize(num_block_edges, static_array::seq, static_array::noinit);
+      }
 
-        if (p_graph.is_edge_weighted()) {
-          subgraph_memory.edge_weights.resize(
-              num_block_edges, static_array::seq, static_array::noinit
-          );
-        }
+      if (p_graph.is_edge_weighted() && subgraph_memory.edge_weights.size() < num_block_edges) {
+        subgraph_memory.edge_weights.resize(
+            num_block_edges, static_array::seq, static_array::noinit
+        );
       }
 
       const StaticArray<NodeID> local_block_nodes(
@@ -530,22 +531,23 @@ void complete_partial_extend_partition(
 
       if (subgraph_memory.nodes.size() < subgraph_memory_n) {
         subgraph_memory.nodes.resize(subgraph_memory_n, static_array::seq, static_array::noinit);
+      }
 
-        if (p_graph.is_node_weighted()) {
-          subgraph_memory.node_weights.resize(
-              subgraph_memory_n, static_array::seq, static_array::noinit
-          );
-        }
+      // Note: the memory might have been used for an unweighted graph before
+      if (p_graph.is_node_weighted() && subgraph_memory.node_weights.size() < subgraph_memory_n) {
+        subgraph_memory.node_weights.resize(
+            subgraph_memory_n, static_array::seq, static_array::noinit
+        );
       }
 
       if (subgraph_memory.edges.size() < num_block_edges) {
         subgraph_memory.edges.resize(num_block_edges, static_array::seq, static_array::noinit);
+      }
 
-        if (p_graph.is_edge_weighted()) {
-          subgraph_memory.edge_weights.resize(
-              num_block_edges, static_array::seq, static_array::noinit
-          );
-        }
+      if (p_graph.is_edge_weighted() && subgraph_memory.edge_weights.size() < num_block_edges) {
+        subgraph_memory.edge_weights.resize(
+            num_block_edges, static_array::seq, static_array::noinit
+        );
       }
 
       const StaticArray<NodeID> local_block_nodes(
-- 
2.43.0


From 23fab2eeaf4a17d8409a4ce462f341699a2ae8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:32 +0000
Subject: [PATCH 08/66] fix: undefined number of threads for initial
 partitioning

With one thread and a load factor below one (preset fast), the number of threads
was computed as floor2(0), which is undefined.
---
 kaminpar-shm/partitioning/partition_utils.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kaminpar-shm/partitioning/partition_utils.cc b/kaminpar-shm/partitioning/partition_utils.cc
index 3f50d36..34962ea 100644
--- a/kaminpar-shm/partitioning/partition_utils.cc
+++ b/kaminpar-shm/partitioning/partition_utils.cc
@@ -123,9 +123,10 @@ std::size_t compute_num_copies(
 }
 
 int compute_num_threads_for_parallel_ip(const Context &input_ctx) {
-  return math::floor2(static_cast<unsigned int>(
+  const auto num_threads = static_cast<unsigned int>(
       1.0 * input_ctx.parallel.num_threads * input_ctx.partitioning.deep_initial_partitioning_load
-  ));
+  );
+  return math::floor2(std::max(num_threads, 1u));
 }
 
 BlockID compute_next_k(const BlockID current_k, const Context &input_ctx) {
-- 
2.43.0


From cbd340337cf4f7da675488fba26a7e0012d49b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:27 +0000
Subject: [PATCH 09/66] fix: skip unassigned nodes when computing block weights
 for many blocks

With 65536 or more blocks, the parallel constructor of the partitioned graph
indexed the block weights with kInvalidBlockID for every unassigned node.
---
 kaminpar-shm/datastructures/partitioned_graph.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kaminpar-shm/datastructures/partitioned_graph.h b/kaminpar-shm/datastructures/partitioned_graph.h
index 40f6068..d84034b 100644
--- a/kaminpar-shm/datastructures/partitioned_graph.h
+++ b/kaminpar-shm/datastructures/partitioned_graph.h
@@ -273,7 +273,9 @@ private:
   void init_block_weights_par() {
     if (k() >= 65536) {
       this->pfor_nodes([&](const NodeID u) {
-        __atomic_fetch_add(&_block_weights[block(u)], this->node_weight(u), __ATOMIC_RELAXED);
+        if (const BlockID b = block(u); b != kInvalidBlockID) {
+          __atomic_fetch_add(&_block_weights[b], this->node_weight(u), __ATOMIC_RELAXED);
+        }
       });
       return;
     }
-- 
2.43.0


From ecae18c9ce898417d3e11b7ef9eb1037037afa03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:37 +0000
Subject: [PATCH 10/66] fix: report connections for newly adjacent blocks in
 the large-k delta gain cache

gains() reports the connection to each block unless the gain cache iterates
exact gains, but reported the gain for blocks that only became adjacent in the
delta partition.
---
 kaminpar-shm/refinement/gains/delta_gain_caches.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kaminpar-shm/refinement/gains/delta_gain_caches.h b/kaminpar-shm/refinement/gains/delta_gain_caches.h
index 54b8827..297ea7e 100644
--- a/kaminpar-shm/refinement/gains/delta_gain_caches.h
+++ b/kaminpar-shm/refinement/gains/delta_gain_caches.h
@@ -142,7 +142,11 @@ public:
       for (const BlockID to : it->second) {
         if (to != from) {
           lambda(to, [&] {
-            return _gain_cache.gain(node, from, to) + conn_delta(node, to) - conn_from_delta;
+            if constexpr (kIteratesExactGains) {
+              return _gain_cache.gain(node, from, to) + conn_delta(node, to) - conn_from_delta;
+            } else {
+              return _gain_cache.conn(node, to) + conn_delta(node, to);
+            }
           });
         }
       }
-- 
2.43.0


From 5de173bad6891893f9688c26c2f0a5727fdba7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:59 +0000
Subject: [PATCH 11/66] fix: size of a hashing gain cache that is reused for a
 smaller graph

The offsets array only grows, hence its last entry does not belong to the
current graph if the cache was initialized for a larger graph before.
---
 kaminpar-shm/refinement/gains/hashing_gain_cache.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kaminpar-shm/refinement/gains/hashing_gain_cache.h b/kaminpar-shm/refinement/gains/hashing_gain_cache.h
index 0105a77..d02e834 100644
--- a/kaminpar-shm/refinement/gains/hashing_gain_cache.h
+++ b/kaminpar-shm/refinement/gains/hashing_gain_cache.h
@@ -84,7 +84,7 @@ public:
       _offsets[u + 1] = std::min<EdgeID>(math::ceil2(_graph->degree(u)), _k);
     });
     parallel::prefix_sum(_offsets.begin(), _offsets.begin() + _n + 1, _offsets.begin());
-    const std::size_t gain_cache_size = _offsets.back();
+    const std::size_t gain_cache_size = _offsets[_n];
 
     if (_gain_cache.size() < gain_cache_size) {
       SCOPED_TIMER("Allocation");
-- 
2.43.0


From 3e21dd2e6c76d9c7e086a00b1058a6fe5909c795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:59 +0000
Subject: [PATCH 12/66] fix: undefined hash table size of isolated nodes in the
 hashing gain cache

ceil2(0) counts the leading zeros of zero, which is undefined.
---
 kaminpar-shm/refinement/gains/hashing_gain_cache.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kaminpar-shm/refinement/gains/hashing_gain_cache.h b/kaminpar-shm/refinement/gains/hashing_gain_cache.h
index d02e834..d54454f 100644
--- a/kaminpar-shm/refinement/gains/hashing_gain_cache.h
+++ b/kaminpar-shm/refinement/gains/hashing_gain_cache.h
@@ -81,7 +81,7 @@ public:
 
     _offsets.front() = 0;
     _graph->pfor_nodes([&](const NodeID u) {
-      _offsets[u + 1] = std::min<EdgeID>(math::ceil2(_graph->degree(u)), _k);
+      _offsets[u + 1] = std::min<EdgeID>(math::ceil2(std::max<NodeID>(_graph->degree(u), 1)), _k);
     });
     parallel::prefix_sum(_offsets.begin(), _offsets.begin() + _n + 1, _offsets.begin());
     const std::size_t gain_cache_size = _offsets[_n];
-- 
2.43.0


From 64e8a36d15fb28b5283355c5dd56a49a902914f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:12 +0000
Subject: [PATCH 13/66] fix: compressed graphs report a maximum degree of zero

---
 kaminpar-common/graph_compression/compressed_edges_builder.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kaminpar-common/graph_compression/compressed_edges_builder.h b/kaminpar-common/graph_compression/compressed_edges_builder.h
index 7cdba2a..d7bc79f 100644
--- a/kaminpar-common/graph_compression/compressed_edges_builder.h
+++ b/kaminpar-common/graph_compression/compressed_edges_builder.h
@@ -7,6 +7,7 @@
  ******************************************************************************/
 #pragma once
 
+#include <algorithm>
 #include <limits>
 #include <span>
 #include <utility>
@@ -221,6 +222,7 @@ public:
     }
 
     _cur_edge += degree;
+    _max_degree = std::max(_max_degree, degree);
 
     if constexpr (kHighDegreeEncoding) {
       const bool split_neighbourhood = degree >= kHighDegreeThreshold;
-- 
2.43.0


From d92f594e89af649cbc205ba52fb6996f752c9f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:10 +0000
Subject: [PATCH 14/66] fix: comparison of static arrays looks at the first
 bytes only

---
 kaminpar-common/datastructures/static_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kaminpar-common/datastructures/static_array.h b/kaminpar-common/datastructures/static_array.h
index 1094de3..8df1240 100644
--- a/kaminpar-common/datastructures/static_array.h
+++ b/kaminpar-common/datastructures/static_array.h
@@ -193,7 +193,7 @@ public:
     if (size() != other.size()) {
       return false;
     }
-    return std::memcmp(_data, other._data, size()) == 0;
+    return std::memcmp(_data, other._data, size() * sizeof(T)) == 0;
   }
 
   [[nodiscard]] bool is_span() const {
-- 
2.43.0


From e382c88feb4c1e13cb4a13055126d2e79e701c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:53 +0000
Subject: [PATCH 15/66] fix: malformed or truncated text files are read past
 their end

---
 apps/io/file_toker.h | 41 +++++++++++++++++++++++------------------
 apps/io/shm_io.cc    |  8 ++++++--
 2 files changed, 29 insertions(+), 20 deletions(-)

diff --git a/apps/io/file_toker.h b/apps/io/file_toker.h
index a093663..8e36e9c 100644
--- a/apps/io/file_toker.h
+++ b/apps/io/file_toker.h
@@ -49,15 +49,20 @@ public:
     _position = 0;
     _length = static_cast<std::size_t>(file_info.st_size);
 
-    _contents = static_cast<char *>(mmap(nullptr, _length, PROT_READ, MAP_PRIVATE, _fd, 0));
-    if (_contents == MAP_FAILED) {
-      close(_fd);
-      throw TokerException("Cannot map input file into memory");
+    _contents = nullptr;
+    if (_length > 0) { // empty files cannot be mapped
+      _contents = static_cast<char *>(mmap(nullptr, _length, PROT_READ, MAP_PRIVATE, _fd, 0));
+      if (_contents == MAP_FAILED) {
+        close(_fd);
+        throw TokerException("Cannot map input file into memory");
+      }
     }
   }
 
   ~MappedFileToker() {
-    munmap(_contents, _length);
+    if (_contents != nullptr) {
+      munmap(_contents, _length);
+    }
     close(_fd);
   }
 
@@ -86,7 +91,7 @@ public:
   }
 
   inline std::uint64_t scan_uint() {
-    KASSERT(valid_position() && std::isdigit(current()));
+    require_digit();
 
     std::uint64_t number = 0;
     while (valid_position() && std::isdigit(current())) {
@@ -100,7 +105,7 @@ public:
   }
 
   inline void skip_uint() {
-    KASSERT(valid_position() && std::isdigit(current()));
+    require_digit();
 
     while (valid_position() && std::isdigit(current())) {
       advance();
@@ -112,21 +117,15 @@ public:
   inline void consume_string(const char *str) {
     std::size_t i = 0;
     while (str[i] != '\0') {
-      KASSERT(
-          valid_position() && str[i] == current(),
-          "unexpected symbol: " << current() << ", but expected " << str[i]
-      );
-
-      advance();
+      consume_char(str[i]);
       ++i;
     }
   }
 
   inline void consume_char(const char ch) {
-    KASSERT(
-        valid_position() && current() == ch,
-        "unexpected symbol: " << current() << ", but expected " << ch
-    );
+    if (!valid_position() || current() != ch) {
+      throw TokerException("Unexpected symbol in input file");
+    }
 
     advance();
   }
@@ -154,7 +153,7 @@ public:
   }
 
   [[nodiscard]] inline char current() const {
-    return _contents[_position];
+    return valid_position() ? _contents[_position] : '\0';
   }
 
   inline void advance() {
@@ -170,6 +169,12 @@ public:
   }
 
 private:
+  inline void require_digit() const {
+    if (!valid_position() || !std::isdigit(static_cast<unsigned char>(current()))) {
+      throw TokerException("Expected a number in input file");
+    }
+  }
+
   int _fd;
   std::size_t _position;
   std::size_t _length;
diff --git a/apps/io/shm_io.cc b/apps/io/shm_io.cc
index a06922a..097ae6d 100644
--- a/apps/io/shm_io.cc
+++ b/apps/io/shm_io.cc
@@ -107,7 +107,9 @@ StaticArray<BlockID> read(const std::string &filename) {
   std::vector<BlockID> partition;
   while (toker.valid_position()) {
     partition.push_back(toker.scan_uint());
-    toker.consume_char('\n');
+    if (toker.valid_position()) {
+      toker.consume_char('\n');
+    }
   }
 
   return {partition.begin(), partition.end()};
@@ -134,7 +136,9 @@ StaticArray<BlockID> read_block_sizes(const std::string &filename) {
   std::vector<NodeID> block_sizes;
   while (toker.valid_position()) {
     block_sizes.push_back(toker.scan_uint());
-    toker.consume_char('\n');
+    if (toker.valid_position()) {
+      toker.consume_char('\n');
+    }
   }
 
   const NodeID n = std::accumulate(block_sizes.begin(), block_sizes.end(), 0);
-- 
2.43.0


From 25815044e2b4ce3211e68eb239e368a89698bab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:17 +0000
Subject: [PATCH 16/66] fix: METIS reader trusts the header's node and edge
 counts

---
 apps/io/shm_metis_parser.cc | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/apps/io/shm_metis_parser.cc b/apps/io/shm_metis_parser.cc
index acf73c8..210d1ef 100644
--- a/apps/io/shm_metis_parser.cc
+++ b/apps/io/shm_metis_parser.cc
@@ -54,18 +54,15 @@ MetisHeader parse_header(MappedFileToker &toker) {
     LOG_WARNING << "ignoring node sizes";
   }
 
-  KASSERT(
-      num_nodes <= static_cast<std::uint64_t>(std::numeric_limits<NodeID>::max()),
-      "number of nodes is too large for the node ID type"
-  );
-  KASSERT(
-      num_edges <= static_cast<std::uint64_t>(std::numeric_limits<EdgeID>::max()),
-      "number of edges is too large for the edge ID type"
-  );
-  KASSERT(
-      num_edges <= (num_nodes * (num_nodes - 1)) / 2,
-      "specified number of edges is impossibly large"
-  );
+  if (num_nodes >= static_cast<std::uint64_t>(std::numeric_limits<NodeID>::max())) {
+    throw TokerException("The number of nodes is too large for the node ID type");
+  }
+  if (num_edges > static_cast<std::uint64_t>(std::numeric_limits<EdgeID>::max()) / 2) {
+    throw TokerException("The number of edges is too large for the edge ID type");
+  }
+  if (num_edges > toker.length() / 2) { // each edge is listed twice
+    throw TokerException("The specified number of edges is impossibly large");
+  }
 
   return {
       .num_nodes = num_nodes,
@@ -87,6 +84,7 @@ void parse_graph(
   constexpr bool stoppable = std::is_invocable_r_v<bool, NextNodeCB, std::uint64_t>;
 
   bool has_exited_preemptively = false;
+  std::uint64_t num_edges_read = 0;
   for (std::uint64_t u = 0; u < header.num_nodes; ++u) {
     toker.skip_spaces();
     while (toker.current() == '%') {
@@ -127,7 +125,12 @@ void parse_graph(
         KASSERT(edge_weight > 0u, "zero edge weights are not supported");
       }
 
-      KASSERT(v < header.num_nodes, "neighbor out of bounds");
+      if (v >= header.num_nodes) {
+        throw TokerException("Neighbor out of bounds");
+      }
+      if (++num_edges_read > 2 * header.num_edges) {
+        throw TokerException("The file contains more edges than specified in its header");
+      }
       KASSERT(u != v, "detected illegal self-loop");
 
       next_edge_cb(edge_weight, v);
@@ -139,6 +142,10 @@ void parse_graph(
   }
 
   if (!has_exited_preemptively) {
+    if (num_edges_read != 2 * header.num_edges) {
+      throw TokerException("The file contains fewer edges than specified in its header");
+    }
+
     while (toker.current() == '%') {
       toker.skip_line();
     }
@@ -275,7 +282,9 @@ CompressedGraph compress_read(const std::string &filename, const bool sorted) {
         edge += 1;
       }
   );
-  builder.add_node(node - 1, neighbourhood);
+  if (node > 0) {
+    builder.add_node(node - 1, neighbourhood);
+  }
 
   KASSERT(
       builder.total_node_weight() <=
-- 
2.43.0


From 997e08fb97a69f08ae38bddb8a358bf8acf2cfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:17 +0000
Subject: [PATCH 17/66] fix: METIS node sizes are read as edges instead of
 being ignored

---
 apps/io/shm_metis_parser.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/apps/io/shm_metis_parser.cc b/apps/io/shm_metis_parser.cc
index 210d1ef..4a5edf1 100644
--- a/apps/io/shm_metis_parser.cc
+++ b/apps/io/shm_metis_parser.cc
@@ -25,6 +25,7 @@ namespace {
 struct MetisHeader {
   std::uint64_t num_nodes = 0;
   std::uint64_t num_edges = 0;
+  bool has_node_sizes = false;
   bool has_node_weights = false;
   bool has_edge_weights = false;
 };
@@ -46,7 +47,7 @@ MetisHeader parse_header(MappedFileToker &toker) {
     LOG_WARNING << "invalid or unsupported graph format";
   }
 
-  [[maybe_unused]] const bool has_node_sizes = format / 100; // == 1xx
+  const bool has_node_sizes = format / 100; // == 1xx
   const bool has_node_weights = (format % 100) / 10;         // == x1x
   const bool has_edge_weights = format % 10;                 // == xx1
 
@@ -67,6 +68,7 @@ MetisHeader parse_header(MappedFileToker &toker) {
   return {
       .num_nodes = num_nodes,
       .num_edges = num_edges,
+      .has_node_sizes = has_node_sizes,
       .has_node_weights = has_node_weights,
       .has_edge_weights = has_edge_weights,
   };
@@ -92,6 +94,10 @@ void parse_graph(
       toker.skip_spaces();
     }
 
+    if (header.has_node_sizes) {
+      toker.skip_uint();
+    }
+
     std::uint64_t node_weight = 1;
     if (header.has_node_weights) {
       node_weight = toker.scan_uint();
-- 
2.43.0


From e3d9b92c9b9c8620e1a2c3981decf036bb1ce259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:35 +0000
Subject: [PATCH 18/66] fix: truncated ParHIP files are read past their end

---
 apps/io/binary_util.h        |  7 +++++++
 apps/io/shm_parhip_parser.cc | 19 ++++++++++++++-----
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/apps/io/binary_util.h b/apps/io/binary_util.h
index 8cc1016..8b74b2a 100644
--- a/apps/io/binary_util.h
+++ b/apps/io/binary_util.h
@@ -61,7 +61,14 @@ public:
     close(_file);
   }
 
+  [[nodiscard]] std::size_t length() const {
+    return _length;
+  }
+
   template <typename T> [[nodiscard]] T read(const std::size_t position) const {
+    if (position > _length || sizeof(T) > _length - position) {
+      throw BinaryReaderException("The file that stores the graph is truncated");
+    }
     return *reinterpret_cast<T *>(_data + position);
   }
 
diff --git a/apps/io/shm_parhip_parser.cc b/apps/io/shm_parhip_parser.cc
index 4556fcb..cc0f0e7 100644
--- a/apps/io/shm_parhip_parser.cc
+++ b/apps/io/shm_parhip_parser.cc
@@ -107,7 +107,7 @@ public:
     return (edge_offset - _nodes_offset_base) / _node_id_width;
   }
 
-  void validate() const {
+  void validate(const BinaryReader &reader) const {
     if (has_64_bit_node_id && sizeof(NodeID) == 4) {
       LOG_ERROR << "The stored graph uses 64-Bit node IDs but this build uses 32-Bit node IDs.";
       std::exit(1);
@@ -129,6 +129,15 @@ public:
           << "The stored graph uses 64-Bit edge weights but this build uses 32-Bit edge weights.";
       std::exit(1);
     }
+
+    const std::size_t edge_weight_width =
+        has_edge_weights ? (has_64_bit_edge_weight ? sizeof(std::uint64_t) : sizeof(std::uint32_t))
+                         : 0;
+    if (num_nodes >= reader.length() / _edge_id_width ||
+        num_edges > reader.length() / _node_id_width ||
+        edge_weights_offset() + num_edges * edge_weight_width > reader.length()) {
+      throw BinaryReaderException("The file that stores the graph is truncated");
+    }
   }
 
 private:
@@ -181,7 +190,7 @@ CSRGraph csr_read(const std::string &filename, const bool sorted) {
   try {
     const BinaryReader reader(filename);
     const ParHIPHeader header = ParHIPHeader::parse(reader);
-    header.validate();
+    header.validate(reader);
 
     const bool upcast_edge_id = !header.has_64_bit_edge_id && sizeof(EdgeID) == 8;
     StaticArray<EdgeID> nodes = read<EdgeID>(
@@ -225,7 +234,7 @@ CSRGraph csr_read_deg_buckets(const std::string &filename) {
   try {
     const BinaryReader reader(filename);
     const ParHIPHeader header = ParHIPHeader::parse(reader);
-    header.validate();
+    header.validate(reader);
 
     const auto *raw_nodes = reader.fetch<void>(header.nodes_offset());
     const bool upcast_edge_id = !header.has_64_bit_edge_id && sizeof(EdgeID) == 8;
@@ -365,7 +374,7 @@ CompressedGraph compressed_read(const std::string &filename, const bool sorted)
   try {
     BinaryReader reader(filename);
     ParHIPHeader header = ParHIPHeader::parse(reader);
-    header.validate();
+    header.validate(reader);
 
     const auto *nodes = reader.fetch<void>(header.nodes_offset());
     const bool upcast_edge_id = !header.has_64_bit_edge_id && sizeof(EdgeID) == 8;
@@ -445,7 +454,7 @@ CompressedGraph compressed_read_parallel(const std::string &filename, const Node
   try {
     const BinaryReader reader(filename);
     const ParHIPHeader header = ParHIPHeader::parse(reader);
-    header.validate();
+    header.validate(reader);
 
     const auto *nodes = reader.fetch<void>(header.nodes_offset());
     const bool upcast_edge_id = !header.has_64_bit_edge_id && sizeof(EdgeID) == 8;
-- 
2.43.0


From d46ff1b7168a45d0cd3358d820c07df8a78271ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:57 +0000
Subject: [PATCH 19/66] fix: truncated compressed graphs are read as if they
 were complete

---
 apps/io/shm_compressed_graph_binary.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/apps/io/shm_compressed_graph_binary.cc b/apps/io/shm_compressed_graph_binary.cc
index 2925a8e..5dc1ed1 100644
--- a/apps/io/shm_compressed_graph_binary.cc
+++ b/apps/io/shm_compressed_graph_binary.cc
@@ -135,9 +135,16 @@ void write(const std::string &filename, const CompressedGraph &graph) {
   }
 }
 
+static void read_bytes(std::ifstream &in, char *data, const std::size_t size) {
+  if (!in.read(data, static_cast<std::streamsize>(size))) {
+    LOG_ERROR << "The compressed graph cannot be read: the file is unreadable or truncated!";
+    std::exit(EXIT_FAILURE);
+  }
+}
+
 template <typename T> static T read_int(std::ifstream &in) {
   T t;
-  in.read(reinterpret_cast<char *>(&t), sizeof(T));
+  read_bytes(in, reinterpret_cast<char *>(&t), sizeof(T));
   return t;
 }
 
@@ -266,14 +273,14 @@ template <typename T> static CompactStaticArray<T> read_compact_static_array(std
   const auto allocated_size = read_int<std::size_t>(in);
 
   auto data = std::make_unique<std::uint8_t[]>(allocated_size);
-  in.read(reinterpret_cast<char *>(data.get()), allocated_size);
+  read_bytes(in, reinterpret_cast<char *>(data.get()), allocated_size);
   return CompactStaticArray<T>(byte_width, allocated_size, std::move(data));
 }
 
 template <typename T> static StaticArray<T> read_static_array(std::ifstream &in) {
   const auto size = read_int<std::size_t>(in);
   StaticArray<T> array(size, static_array::noinit);
-  in.read(reinterpret_cast<char *>(array.data()), sizeof(T) * size);
+  read_bytes(in, reinterpret_cast<char *>(array.data()), sizeof(T) * size);
   return array;
 }
 
-- 
2.43.0


From 324ca2940561b0554aca017817244ec439a33099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:57 +0000
Subject: [PATCH 20/66] fix: failed writes of partitions and graphs go
 unnoticed

---
 apps/io/binary_util.h                  | 8 +++++++-
 apps/io/shm_compressed_graph_binary.cc | 3 +++
 apps/io/shm_io.cc                      | 6 ++++++
 apps/io/shm_metis_parser.cc            | 2 ++
 apps/io/shm_parhip_parser.cc           | 2 ++
 5 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/apps/io/binary_util.h b/apps/io/binary_util.h
index 8b74b2a..0db192b 100644
--- a/apps/io/binary_util.h
+++ b/apps/io/binary_util.h
@@ -84,7 +84,13 @@ private:
 
 class BinaryWriter {
 public:
-  BinaryWriter(const std::string &filename) : _out(filename, std::ios::binary) {}
+  BinaryWriter(const std::string &filename) : _out(filename, std::ios::binary) {
+    _out.exceptions(std::ios::failbit | std::ios::badbit); // report failures
+  }
+
+  void close() {
+    _out.close();
+  }
 
   void write(const char *data, const std::size_t size) {
     _out.write(data, size);
diff --git a/apps/io/shm_compressed_graph_binary.cc b/apps/io/shm_compressed_graph_binary.cc
index 5dc1ed1..7ce8257 100644
--- a/apps/io/shm_compressed_graph_binary.cc
+++ b/apps/io/shm_compressed_graph_binary.cc
@@ -122,6 +122,7 @@ static void write_static_array(std::ofstream &out, const StaticArray<T> &static_
 
 void write(const std::string &filename, const CompressedGraph &graph) {
   std::ofstream out(filename, std::ios::binary);
+  out.exceptions(std::ios::failbit | std::ios::badbit); // report failures
   write_int(out, kMagicNumber);
 
   CompressedBinaryHeader header = create_header(graph);
@@ -133,6 +134,8 @@ void write(const std::string &filename, const CompressedGraph &graph) {
   if (graph.is_node_weighted()) {
     write_static_array(out, graph.raw_node_weights());
   }
+
+  out.close();
 }
 
 static void read_bytes(std::ifstream &in, char *data, const std::size_t size) {
diff --git a/apps/io/shm_io.cc b/apps/io/shm_io.cc
index 097ae6d..9e7d350 100644
--- a/apps/io/shm_io.cc
+++ b/apps/io/shm_io.cc
@@ -95,9 +95,11 @@ namespace partition {
 
 void write(const std::string &filename, const std::span<const BlockID> partition) {
   std::ofstream out(filename);
+  out.exceptions(std::ios::failbit | std::ios::badbit); // report failures
   for (const BlockID block : partition) {
     out << block << "\n";
   }
+  out.close();
 }
 
 StaticArray<BlockID> read(const std::string &filename) {
@@ -124,9 +126,11 @@ void write_block_sizes(
   }
 
   std::ofstream out(filename);
+  out.exceptions(std::ios::failbit | std::ios::badbit); // report failures
   for (const BlockID block_size : block_sizes) {
     out << block_size << "\n";
   }
+  out.close();
 }
 
 StaticArray<BlockID> read_block_sizes(const std::string &filename) {
@@ -162,9 +166,11 @@ namespace remapping {
 
 void write(const std::string &filename, std::span<const NodeID> remapping) {
   std::ofstream out(filename);
+  out.exceptions(std::ios::failbit | std::ios::badbit); // report failures
   for (const NodeID new_id : remapping) {
     out << new_id << "\n";
   }
+  out.close();
 }
 
 } // namespace remapping
diff --git a/apps/io/shm_metis_parser.cc b/apps/io/shm_metis_parser.cc
index 4a5edf1..7243538 100644
--- a/apps/io/shm_metis_parser.cc
+++ b/apps/io/shm_metis_parser.cc
@@ -309,6 +309,7 @@ CompressedGraph compress_read(const std::string &filename, const bool sorted) {
 
 void write(const std::string &filename, const Graph &graph) {
   std::ofstream out(filename);
+  out.exceptions(std::ios::failbit | std::ios::badbit); // report failures
 
   out << graph.n() << ' ' << (graph.m() / 2);
   if (graph.is_node_weighted() || graph.is_edge_weighted()) {
@@ -337,6 +338,7 @@ void write(const std::string &filename, const Graph &graph) {
 
     out << '\n';
   }
+  out.close();
 }
 
 } // namespace kaminpar::shm::io::metis
diff --git a/apps/io/shm_parhip_parser.cc b/apps/io/shm_parhip_parser.cc
index cc0f0e7..534c891 100644
--- a/apps/io/shm_parhip_parser.cc
+++ b/apps/io/shm_parhip_parser.cc
@@ -581,6 +581,8 @@ void write(const std::string &filename, const CSRGraph &graph) {
   if (has_edge_weights) {
     writer.write_raw_static_array(graph.raw_edge_weights());
   }
+
+  writer.close();
 }
 
 } // namespace kaminpar::shm::io::parhip
-- 
2.43.0


From be109448dbc2525e40a38e342cd75bba4bacbc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:34 +0000
Subject: [PATCH 21/66] fix: do not reuse grid communicators of freed
 communicators

Grid communicators were cached by communicator handle. Once a communicator is freed, its handle can
be reused for another communicator, which then found a grid communicator over the wrong PEs.
---
 kaminpar-mpi/grid_topology.cc | 34 +++++++++++++++++++++++++++++-----
 kaminpar-mpi/grid_topology.h  |  5 +++++
 2 files changed, 34 insertions(+), 5 deletions(-)

diff --git a/kaminpar-mpi/grid_topology.cc b/kaminpar-mpi/grid_topology.cc
index f38fcd4..8031259 100644
--- a/kaminpar-mpi/grid_topology.cc
+++ b/kaminpar-mpi/grid_topology.cc
@@ -7,14 +7,38 @@
  ******************************************************************************/
 #include "kaminpar-mpi/grid_topology.h"
 
-#include <unordered_map>
-
 #include <mpi.h>
 
 namespace kaminpar::mpi {
+namespace {
+// Called when a communicator with an attached grid communicator is freed. (Attributes of
+// MPI_COMM_WORLD are only deleted while MPI shuts down.)
+int delete_grid_communicator(MPI_Comm comm, int, void *grid_comm, void *) {
+  auto *obsolete = static_cast<GridCommunicator *>(grid_comm);
+  if (comm != MPI_COMM_WORLD) {
+    obsolete->free();
+  }
+  delete obsolete;
+  return MPI_SUCCESS;
+}
+} // namespace
+
 GridCommunicator &get_grid_communicator(MPI_Comm comm) {
-  static std::unordered_map<MPI_Comm, GridCommunicator> grid_communicators;
-  auto [grid_comm_it, ignored] = grid_communicators.try_emplace(comm, comm);
-  return grid_comm_it->second;
+  // Attach the grid communicator to the communicator rather than looking it up by handle: handles
+  // of freed communicators are reused for new communicators
+  static const int keyval = [] {
+    int keyval = MPI_KEYVAL_INVALID;
+    MPI_Comm_create_keyval(MPI_COMM_NULL_COPY_FN, delete_grid_communicator, &keyval, nullptr);
+    return keyval;
+  }();
+
+  GridCommunicator *grid_comm = nullptr;
+  int found = 0;
+  MPI_Comm_get_attr(comm, keyval, &grid_comm, &found);
+  if (!found) {
+    grid_comm = new GridCommunicator(comm);
+    MPI_Comm_set_attr(comm, keyval, grid_comm);
+  }
+  return *grid_comm;
 }
 } // namespace kaminpar::mpi
diff --git a/kaminpar-mpi/grid_topology.h b/kaminpar-mpi/grid_topology.h
index 2d55c2f..d500d66 100644
--- a/kaminpar-mpi/grid_topology.h
+++ b/kaminpar-mpi/grid_topology.h
@@ -136,6 +136,11 @@ public:
     return get_comm_size(_col_comm);
   }
 
+  void free() {
+    MPI_Comm_free(&_row_comm);
+    MPI_Comm_free(&_col_comm);
+  }
+
 private:
   MPI_Comm _row_comm;
   MPI_Comm _col_comm;
-- 
2.43.0


From 320d1fa83abe0ff4d458557a0cef4c4eaa6f648f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:19 +0000
Subject: [PATCH 22/66] fix: send full-width counts when building distributions
 of coarse graphs

---
 .../coarsening/contraction/global_cluster_contraction.cc  | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/kaminpar-dist/coarsening/contraction/global_cluster_contraction.cc b/kaminpar-dist/coarsening/contraction/global_cluster_contraction.cc
index 556f040..4d34f39 100644
--- a/kaminpar-dist/coarsening/contraction/global_cluster_contraction.cc
+++ b/kaminpar-dist/coarsening/contraction/global_cluster_contraction.cc
@@ -522,13 +522,7 @@ template <typename T> StaticArray<T> build_distribution(const T count, MPI_Comm
   RECORD("distribution") StaticArray<T> distribution(mpi::get_comm_size(comm) + 1);
 
   MPI_Allgather(
-      &count,
-      1,
-      mpi::type::get<NodeID>(),
-      distribution.data(),
-      1,
-      mpi::type::get<GlobalNodeID>(),
-      comm
+      &count, 1, mpi::type::get<T>(), distribution.data(), 1, mpi::type::get<T>(), comm
   );
   std::exclusive_scan(
       distribution.begin(), distribution.end(), distribution.begin(), static_cast<T>(0)
-- 
2.43.0


From 7eb760a33eebf26f6e2bb63dd057da4ff6de4d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:13 +0000
Subject: [PATCH 23/66] fix: synchronize on the communicator of the partitioner
 instead of MPI_COMM_WORLD

---
 kaminpar-dist/dkaminpar.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/kaminpar-dist/dkaminpar.cc b/kaminpar-dist/dkaminpar.cc
index d4fb269..a6a710b 100644
--- a/kaminpar-dist/dkaminpar.cc
+++ b/kaminpar-dist/dkaminpar.cc
@@ -114,10 +114,10 @@ void print_partition_summary(
 void print_input_summary(
     const Context &ctx, const DistributedGraph &graph, const bool parseable, const bool root
 ) {
-  const auto n_str = mpi::gather_statistics_str<GlobalNodeID>(graph.n(), MPI_COMM_WORLD);
-  const auto m_str = mpi::gather_statistics_str<GlobalEdgeID>(graph.m(), MPI_COMM_WORLD);
-  const auto ghost_n_str =
-      mpi::gather_statistics_str<GlobalNodeID>(graph.ghost_n(), MPI_COMM_WORLD);
+  MPI_Comm comm = graph.communicator();
+  const auto n_str = mpi::gather_statistics_str<GlobalNodeID>(graph.n(), comm);
+  const auto m_str = mpi::gather_statistics_str<GlobalEdgeID>(graph.m(), comm);
+  const auto ghost_n_str = mpi::gather_statistics_str<GlobalNodeID>(graph.ghost_n(), comm);
 
   if (root && parseable) {
     LOG << "EXECUTION_MODE num_mpis=" << ctx.parallel.num_mpis
@@ -356,7 +356,7 @@ GlobalEdgeWeight dKaMinPar::compute_partition(const BlockID k, BlockID *partitio
   }
   STOP_TIMER();
 
-  mpi::barrier(MPI_COMM_WORLD);
+  mpi::barrier(_comm);
 
   // Print some statistics
   STOP_TIMER(); // stop root timer
-- 
2.43.0


From 38714387c01498b2b5a48a2c16bfb79ff6211c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:51 +0000
Subject: [PATCH 24/66] fix: compute one-block partitions without
 bipartitioning in distributed initial partitioning

---
 .../initial_partitioning/kaminpar_initial_partitioner.cc        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kaminpar-dist/initial_partitioning/kaminpar_initial_partitioner.cc b/kaminpar-dist/initial_partitioning/kaminpar_initial_partitioner.cc
index 4a3620b..acb72ba 100644
--- a/kaminpar-dist/initial_partitioning/kaminpar_initial_partitioner.cc
+++ b/kaminpar-dist/initial_partitioning/kaminpar_initial_partitioner.cc
@@ -20,7 +20,7 @@ namespace kaminpar::dist {
 shm::PartitionedGraph KaMinParInitialPartitioner::initial_partition(
     const shm::Graph &graph, const PartitionContext &p_ctx
 ) {
-  if (graph.n() <= 1) {
+  if (graph.n() <= 1 || p_ctx.k == 1) {
     return {graph, p_ctx.k, StaticArray<BlockID>(graph.n())};
   }
 
-- 
2.43.0


From c9f8d43004ba83e3737ad32efb813fd40c9629bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:51 +0000
Subject: [PATCH 25/66] fix: extract and copy back blocks if there are not as
 many PEs as blocks

---
 .../graphutils/subgraph_extractor.cc          | 47 +++++++++++--------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/kaminpar-dist/graphutils/subgraph_extractor.cc b/kaminpar-dist/graphutils/subgraph_extractor.cc
index a718317..0261b52 100644
--- a/kaminpar-dist/graphutils/subgraph_extractor.cc
+++ b/kaminpar-dist/graphutils/subgraph_extractor.cc
@@ -240,7 +240,7 @@ BlockID BlockExtractionOffsets::first_block_on_pe(PEID pe) const {
   if (static_cast<BlockID>(_size) <= _k) {
     return pe * _min_blocks_per_pe + std::min<BlockID>(pe, _rem_blocks);
   } else {
-    if (pe <= _rem_pes * _min_pes_per_block) {
+    if (pe < _rem_pes * (_min_pes_per_block + 1)) {
       return pe / (_min_pes_per_block + 1);
     } else {
       return _rem_pes + (pe - _rem_pes * (_min_pes_per_block + 1)) / _min_pes_per_block;
@@ -256,7 +256,16 @@ BlockID BlockExtractionOffsets::num_blocks_on_pe(PEID pe) const {
 }
 
 PEID BlockExtractionOffsets::first_pe_with_block(BlockID block) const {
-  return std::max<BlockID>(block, block * _min_pes_per_block + std::min<BlockID>(block, _rem_pes));
+  if (static_cast<BlockID>(_size) <= _k) {
+    const BlockID num_blocks_on_larger_pes = _rem_blocks * (_min_blocks_per_pe + 1);
+    if (block < num_blocks_on_larger_pes) {
+      return block / (_min_blocks_per_pe + 1);
+    } else {
+      return _rem_blocks + (block - num_blocks_on_larger_pes) / _min_blocks_per_pe;
+    }
+  } else {
+    return block * _min_pes_per_block + std::min<BlockID>(block, _rem_pes);
+  }
 }
 
 PEID BlockExtractionOffsets::first_invalid_pe_with_block(BlockID block) const {
@@ -303,8 +312,10 @@ NoinitVector<GraphSize> exchange_subgraph_sizes(
     const PEID first_pe = offsets.first_pe_with_block(block);
     const PEID first_invalid_pe = offsets.first_invalid_pe_with_block(block);
     for (PEID to = first_pe; to < first_invalid_pe; ++to) {
-      send_subgraph_sizes[to].n = memory.nodes_offset[block + 1] - memory.nodes_offset[block];
-      send_subgraph_sizes[to].m = memory.edges_offset[block + 1] - memory.edges_offset[block];
+      // PEs are assigned either consecutive blocks or copies of a single block
+      const std::size_t pos = static_cast<BlockID>(size) <= p_graph.k() ? block : to;
+      send_subgraph_sizes[pos].n = memory.nodes_offset[block + 1] - memory.nodes_offset[block];
+      send_subgraph_sizes[pos].m = memory.edges_offset[block + 1] - memory.edges_offset[block];
     }
   });
 
@@ -359,6 +370,7 @@ SharedGraphs exchange_subgraphs(
 ) {
   SCOPED_TIMER("Exchange subgraphs");
   const PEID size = mpi::get_comm_size(p_graph.communicator());
+  const PEID rank = mpi::get_comm_rank(p_graph.communicator());
 
   std::vector<int> sendcounts_nodes(size);
   std::vector<int> sendcounts_edges(size);
@@ -387,22 +399,17 @@ SharedGraphs exchange_subgraphs(
 
     // Compute recvcounts + rdispls
     {
-      auto compute_offset = [&](const BlockID pe) {
-        const BlockID min_blocks_per_pe = p_graph.k() / size;
-        const BlockID rem_blocks = p_graph.k() % size;
-        return std::max<BlockID>(pe, pe * min_blocks_per_pe + std::min<BlockID>(pe, rem_blocks));
-      };
-
-      const BlockID first_block_on_pe = compute_offset(pe);
-      const BlockID first_invalid_block_on_pe = compute_offset(pe + 1);
-
-      recvcounts_nodes[pe] = recv_subgraph_displs[first_invalid_block_on_pe].n -
-                             recv_subgraph_displs[first_block_on_pe].n;
-      recvcounts_edges[pe] = recv_subgraph_displs[first_invalid_block_on_pe].m -
-                             recv_subgraph_displs[first_block_on_pe].m;
-
-      rdispls_nodes[pe + 1] = recv_subgraph_displs[first_invalid_block_on_pe].n;
-      rdispls_edges[pe + 1] = recv_subgraph_displs[first_invalid_block_on_pe].m;
+      // We receive all blocks assigned to this PE from every PE
+      const std::size_t first_from_pe = offsets.num_blocks_on_pe(rank) * pe;
+      const std::size_t first_from_next_pe = offsets.num_blocks_on_pe(rank) * (pe + 1);
+
+      recvcounts_nodes[pe] =
+          recv_subgraph_displs[first_from_next_pe].n - recv_subgraph_displs[first_from_pe].n;
+      recvcounts_edges[pe] =
+          recv_subgraph_displs[first_from_next_pe].m - recv_subgraph_displs[first_from_pe].m;
+
+      rdispls_nodes[pe + 1] = recv_subgraph_displs[first_from_next_pe].n;
+      rdispls_edges[pe + 1] = recv_subgraph_displs[first_from_next_pe].m;
     }
   });
   MPI_Barrier(p_graph.communicator());
-- 
2.43.0


From e87cbb9b89445dc10719ee24380748b34a68af31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:37 +0000
Subject: [PATCH 26/66] fix: continue distributed BFS at seed nodes that are
 further away than the explored nodes

---
 kaminpar-dist/graphutils/bfs_extractor.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kaminpar-dist/graphutils/bfs_extractor.cc b/kaminpar-dist/graphutils/bfs_extractor.cc
index e173ae6..c8ac524 100644
--- a/kaminpar-dist/graphutils/bfs_extractor.cc
+++ b/kaminpar-dist/graphutils/bfs_extractor.cc
@@ -266,6 +266,9 @@ auto BfsExtractor::bfs(
         << std::get<1>(ghost_seed_nodes.front());
   }
 
+  const NodeID last_seed_distance =
+      (!ghost_seed_nodes.empty() ? std::get<0>(ghost_seed_nodes.back()) : 0);
+
   std::queue<NodeID> front;
   NoinitVector<GhostSeedEdge> next_ghost_seed_edges;
 
@@ -378,7 +381,8 @@ auto BfsExtractor::bfs(
       edge_weights.push_back(weight);
     }
 
-    if (front_size == 0) {
+    // Continue with the next distance for which there are nodes
+    while (front_size == 0 && (!front.empty() || current_distance < last_seed_distance)) {
       front_size = front.size();
       ++current_distance;
       add_seed_nodes_to_search_front(current_distance + 1);
-- 
2.43.0


From 6b69b06b9a9ce32f8ce94171c8b0b65610deaba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:33 +0000
Subject: [PATCH 27/66] fix: compute the number of colors on PEs without nodes

---
 kaminpar-dist/coarsening/clustering/hem/hem_clusterer.cc | 3 ++-
 kaminpar-dist/graphutils/rearrangement.cc                | 3 ++-
 kaminpar-dist/refinement/lp/clp_refiner.cc               | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/kaminpar-dist/coarsening/clustering/hem/hem_clusterer.cc b/kaminpar-dist/coarsening/clustering/hem/hem_clusterer.cc
index 9b0ef82..439bc9e 100644
--- a/kaminpar-dist/coarsening/clustering/hem/hem_clusterer.cc
+++ b/kaminpar-dist/coarsening/clustering/hem/hem_clusterer.cc
@@ -110,7 +110,8 @@ private:
       return compute_node_coloring_sequentially(*_graph, _ctx.chunks.compute(_input_ctx.parallel));
     }();
 
-    const ColorID num_local_colors = *std::max_element(coloring.begin(), coloring.end()) + 1;
+    const ColorID num_local_colors =
+        coloring.empty() ? 0 : *std::max_element(coloring.begin(), coloring.end()) + 1;
     const ColorID num_colors = mpi::allreduce(num_local_colors, MPI_MAX, _graph->communicator());
 
     TIMED_SCOPE("Allocation") {
diff --git a/kaminpar-dist/graphutils/rearrangement.cc b/kaminpar-dist/graphutils/rearrangement.cc
index 0518cb1..786fb22 100644
--- a/kaminpar-dist/graphutils/rearrangement.cc
+++ b/kaminpar-dist/graphutils/rearrangement.cc
@@ -56,7 +56,8 @@ DistributedCSRGraph rearrange_by_coloring(DistributedCSRGraph graph, const Conte
   auto coloring = compute_node_coloring_sequentially(
       graph, ctx.refinement.colored_lp.coloring_chunks.compute(ctx.parallel)
   );
-  const ColorID num_local_colors = *std::max_element(coloring.begin(), coloring.end()) + 1;
+  const ColorID num_local_colors =
+      coloring.empty() ? 0 : *std::max_element(coloring.begin(), coloring.end()) + 1;
   const ColorID num_colors = mpi::allreduce(num_local_colors, MPI_MAX, graph.communicator());
 
   START_TIMER("Allocation");
diff --git a/kaminpar-dist/refinement/lp/clp_refiner.cc b/kaminpar-dist/refinement/lp/clp_refiner.cc
index b49e272..b78a222 100644
--- a/kaminpar-dist/refinement/lp/clp_refiner.cc
+++ b/kaminpar-dist/refinement/lp/clp_refiner.cc
@@ -96,7 +96,8 @@ void ColoredLPRefiner::initialize() {
     );
   }();
 
-  const ColorID num_local_colors = *std::max_element(coloring.begin(), coloring.end()) + 1;
+  const ColorID num_local_colors =
+      coloring.empty() ? 0 : *std::max_element(coloring.begin(), coloring.end()) + 1;
   const ColorID num_colors = mpi::allreduce(num_local_colors, MPI_MAX, graph.communicator());
   STATS << "Number of colors: " << num_colors;
 
-- 
2.43.0


From 1bf3c1d03bd5a3b94bfb58575d7e0fcf4f8bdada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:43 +0000
Subject: [PATCH 28/66] fix: allocate memory of the local label propagation
 clusterer before initializing it

Also restrict the clusters used by the cluster balancer to a single block.
---
 .../coarsening/clustering/lp/local_lp_clusterer.cc         | 7 ++++---
 kaminpar-dist/refinement/balancer/clusters.cc              | 5 ++++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/kaminpar-dist/coarsening/clustering/lp/local_lp_clusterer.cc b/kaminpar-dist/coarsening/clustering/lp/local_lp_clusterer.cc
index aea5698..261fbf4 100644
--- a/kaminpar-dist/coarsening/clustering/lp/local_lp_clusterer.cc
+++ b/kaminpar-dist/coarsening/clustering/lp/local_lp_clusterer.cc
@@ -74,9 +74,9 @@ public:
   }
 
   void initialize(const Graph &graph) {
-    Base::initialize(&graph, graph.n());
     Base::allocate();
-    ClusterWeightBase::allocate_cluster_weights(graph.n());
+    ClusterWeightBase::allocate_cluster_weights(graph.total_n());
+    Base::initialize(&graph, graph.n());
   }
 
   void set_max_cluster_weight(const GlobalNodeWeight max_cluster_weight) {
@@ -264,8 +264,9 @@ void LocalLPClusterer::set_max_cluster_weight(GlobalNodeWeight weight) {
 void LocalLPClusterer::cluster(
     StaticArray<GlobalNodeID> &global_clustering, const DistributedGraph &p_graph
 ) {
+  // The cluster IDs of ghost nodes are also stored if they are not ignored
   StaticArray<NodeID> local_clustering(
-      p_graph.n(), reinterpret_cast<NodeID *>(global_clustering.data())
+      p_graph.total_n(), reinterpret_cast<NodeID *>(global_clustering.data())
   );
   return _impl->compute_clustering(local_clustering, p_graph);
 }
diff --git a/kaminpar-dist/refinement/balancer/clusters.cc b/kaminpar-dist/refinement/balancer/clusters.cc
index 9ad8c2c..7de742a 100644
--- a/kaminpar-dist/refinement/balancer/clusters.cc
+++ b/kaminpar-dist/refinement/balancer/clusters.cc
@@ -523,6 +523,9 @@ Clusters build_local_clusters(
 ) {
   clusterer->set_max_cluster_weight(max_weight);
 
+  // Move sets may not span multiple blocks
+  clusterer->set_communities(p_graph.partition());
+
   StaticArray<NodeID> clustering(p_graph.total_n());
   StaticArray<GlobalNodeID> casted(std::ceil(1.0 * p_graph.total_n() / 2), clustering.data());
   clusterer->cluster(casted, p_graph.graph());
@@ -567,7 +570,7 @@ Clusters build_local_clusters(
       m_ctx.node_to_cluster[u] = kInvalidNodeID;
     }
   }
-  m_ctx.cluster_indices.resize(cluster_to_move_set.back() + 1);
+  m_ctx.cluster_indices.resize(cluster_to_move_set.empty() ? 1 : cluster_to_move_set.back() + 1);
 
   KASSERT(
       [&] {
-- 
2.43.0


From 13a633d62af4dff7c30d0976cb0762e6eb2f8a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:00 +0000
Subject: [PATCH 29/66] fix: split processes only into groups of equal size

---
 kaminpar-dist/partitioning/deep_multilevel.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/kaminpar-dist/partitioning/deep_multilevel.cc b/kaminpar-dist/partitioning/deep_multilevel.cc
index 03fab55..b724d42 100644
--- a/kaminpar-dist/partitioning/deep_multilevel.cc
+++ b/kaminpar-dist/partitioning/deep_multilevel.cc
@@ -75,8 +75,12 @@ DistributedPartitionedGraph DeepMultilevelPartitioner::partition() {
 
     if (_input_ctx.enable_pe_splitting && current_num_pes > 1 &&
         num_blocks_on_this_level < static_cast<BlockID>(current_num_pes)) {
-      const PEID num_replications = current_num_pes / num_blocks_on_this_level;
-      // const PEID remaining_pes = current_num_pes % num_blocks_on_this_level;
+      // All PE groups must have the same size, otherwise the partitions of the groups cannot be
+      // exchanged when joining them again
+      PEID num_replications = current_num_pes / num_blocks_on_this_level;
+      while (current_num_pes % num_replications != 0) {
+        --num_replications;
+      }
 
       LOG << "Current graph (" << graph->global_n()
           << " nodes) is too small for the available parallelism (" << current_num_pes
-- 
2.43.0


From c47a65ccdd9b8fd714022b4c5c43a037ae27a300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:46 +0000
Subject: [PATCH 30/66] fix: keep the factory of Jet's balancer alive

---
 kaminpar-dist/refinement/jet/jet_refiner.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/kaminpar-dist/refinement/jet/jet_refiner.cc b/kaminpar-dist/refinement/jet/jet_refiner.cc
index 9a02b97..7bc482d 100644
--- a/kaminpar-dist/refinement/jet/jet_refiner.cc
+++ b/kaminpar-dist/refinement/jet/jet_refiner.cc
@@ -51,8 +51,10 @@ public:
         _gains_and_targets(p_graph.total_n()),
         _block_weight_deltas(p_graph.k()),
         _locked(p_graph.n()),
-        _balancer(factory::create_refiner(_ctx, _ctx.refinement.jet.balancing_algorithm)
-                      ->create(_p_graph, _p_ctx)) {}
+        _balancer_factory(
+            factory::create_refiner(_ctx, _ctx.refinement.jet.balancing_algorithm)
+        ),
+        _balancer(_balancer_factory->create(_p_graph, _p_ctx)) {}
 
   JetRefiner(const JetRefiner &) = delete;
   JetRefiner &operator=(const JetRefiner &) = delete;
@@ -416,6 +418,8 @@ private:
   StaticArray<BlockWeight> _block_weight_deltas;
   StaticArray<std::uint8_t> _locked;
 
+  // Balancers may return their memory to the factory, which must thus outlive the balancer
+  std::unique_ptr<GlobalRefinerFactory> _balancer_factory;
   std::unique_ptr<GlobalRefiner> _balancer;
 
   double _negative_gain_factor;
-- 
2.43.0


From c23202c8d783f0df7c1bc378ebe247dcb01a1fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:54 +0000
Subject: [PATCH 31/66] fix: division by zero if the partition is balanced and
 clusters are limited by the average overload

---
 kaminpar-dist/refinement/balancer/cluster_balancer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kaminpar-dist/refinement/balancer/cluster_balancer.cc b/kaminpar-dist/refinement/balancer/cluster_balancer.cc
index 37f3c84..03f1aa4 100644
--- a/kaminpar-dist/refinement/balancer/cluster_balancer.cc
+++ b/kaminpar-dist/refinement/balancer/cluster_balancer.cc
@@ -901,7 +901,7 @@ NodeWeight ClusterBalancer::compute_cluster_weight_limit() const {
     for (const BlockID block : _p_graph.blocks()) {
       limit += overload(block);
     }
-    limit /= metrics::num_imbalanced_blocks(_p_graph, _p_ctx);
+    limit /= std::max<BlockID>(1, metrics::num_imbalanced_blocks(_p_graph, _p_ctx));
     break;
 
   case ClusterSizeStrategy::MIN_OVERLOAD:
-- 
2.43.0


From 3c4e9df4ddca72a4b416db5b6d04da70cf4340c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:33 +0000
Subject: [PATCH 32/66] fix: endless recursion when balancing less coarse nodes
 than processes

---
 .../coarsening/contraction/global_cluster_contraction.cc        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kaminpar-dist/coarsening/contraction/global_cluster_contraction.cc b/kaminpar-dist/coarsening/contraction/global_cluster_contraction.cc
index 4d34f39..3b9a4ce 100644
--- a/kaminpar-dist/coarsening/contraction/global_cluster_contraction.cc
+++ b/kaminpar-dist/coarsening/contraction/global_cluster_contraction.cc
@@ -906,7 +906,7 @@ AssignmentShifts compute_assignment_shifts(
   pe_overload.front() = 0;
   pe_underload.front() = 0;
 
-  const auto avg_cnode_count = static_cast<NodeID>(c_n / size);
+  const auto avg_cnode_count = std::max<NodeID>(1, static_cast<NodeID>(c_n / size));
   const auto max_cnode_count = static_cast<NodeID>(max_cnode_imbalance * avg_cnode_count);
 
   // Determine overloaded PEs
-- 
2.43.0


From fab93658e0bf78648d2eb86789b94623cc6937af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:24 +0000
Subject: [PATCH 33/66] fix: clusters that fit into no other block were moved
 to an invalid block

---
 .../refinement/balancer/cluster_balancer.cc   | 19 +++++++++++--------
 kaminpar-dist/refinement/balancer/clusters.h  |  7 +++++--
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/kaminpar-dist/refinement/balancer/cluster_balancer.cc b/kaminpar-dist/refinement/balancer/cluster_balancer.cc
index 03f1aa4..06c3b2f 100644
--- a/kaminpar-dist/refinement/balancer/cluster_balancer.cc
+++ b/kaminpar-dist/refinement/balancer/cluster_balancer.cc
@@ -484,13 +484,11 @@ void ClusterBalancer::perform_parallel_round() {
             .to = to,
         };
 
-        if (to == from) {
-          [[maybe_unused]] const bool reassigned =
-              assign_feasible_target_block(candidate, block_weight_deltas);
-          KASSERT(reassigned);
+        if (to == from && !assign_feasible_target_block(candidate, block_weight_deltas)) {
+          continue;
         }
 
-        block_weight_deltas[to] += weight;
+        block_weight_deltas[candidate.to] += weight;
         candidates.push_back(candidate);
       }
     }
@@ -615,14 +613,19 @@ void ClusterBalancer::perform_sequential_round() {
       continue;
     }
 
-    [[maybe_unused]] const bool reassigned =
-        assign_feasible_target_block(candidate, tmp_block_weight_deltas);
-    KASSERT(reassigned);
+    if (!assign_feasible_target_block(candidate, tmp_block_weight_deltas)) {
+      continue;
+    }
 
     tmp_block_weight_deltas[candidate.from] -= candidate.weight;
     tmp_block_weight_deltas[candidate.to] += candidate.weight;
   }
 
+  // Drop candidates that cannot be moved to any block
+  std::erase_if(candidates, [](const MoveCandidate &candidate) {
+    return candidate.from == candidate.to;
+  });
+
   KASSERT(
       [&] {
         for (const BlockID block : _p_graph.blocks()) {
diff --git a/kaminpar-dist/refinement/balancer/clusters.h b/kaminpar-dist/refinement/balancer/clusters.h
index a877962..2e9c30d 100644
--- a/kaminpar-dist/refinement/balancer/clusters.h
+++ b/kaminpar-dist/refinement/balancer/clusters.h
@@ -192,9 +192,12 @@ public:
       }
     }
 
-    KASSERT(max_conn >= 0);
-    KASSERT(max_gainer != kInvalidBlockID);
+    if (max_gainer == kInvalidBlockID) {
+      // No block can take the cluster without becoming overloaded
+      return {0, set_b};
+    }
 
+    KASSERT(max_conn >= 0);
     return {max_conn, max_gainer};
   }
 
-- 
2.43.0


From e5cd8cf8b90ba1d03aedb0c8db24322530d73db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:24 +0000
Subject: [PATCH 34/66] fix: dist cluster balancer: drop uninitialised ghost
 adjacency entries, keep the seed of each cluster

---
 kaminpar-dist/refinement/balancer/clusters.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/kaminpar-dist/refinement/balancer/clusters.cc b/kaminpar-dist/refinement/balancer/clusters.cc
index 7de742a..af5273f 100644
--- a/kaminpar-dist/refinement/balancer/clusters.cc
+++ b/kaminpar-dist/refinement/balancer/clusters.cc
@@ -116,7 +116,8 @@ void Clusters::init_ghost_node_adjacency() {
 
   _ghost_node_indices.resize(_p_graph->ghost_n() + 1);
   _ghost_node_indices.front() = 0;
-  _ghost_node_edges.resize(ghost_to_cluster.size());
+  _ghost_node_edges.clear();
+  _ghost_node_edges.reserve(ghost_to_cluster.size());
 
   NodeID prev_ghost = 0;
   for (std::size_t i = 0; i < ghost_to_cluster.size(); ++i) {
@@ -323,6 +324,16 @@ public:
       });
     }
 
+    // The cluster must contain its seed node, even if it violates the weight limit or if there is no
+    // block that could take it
+    if (_cur_pos == _cluster_indices[_cur_cluster]) {
+      _frontier.pop();
+      add_to_cluster(seed);
+    }
+    if (_best_prefix_pos == _cluster_indices[_cur_cluster]) {
+      ++_best_prefix_pos;
+    }
+
     finish_cluster();
 
     KASSERT(_node_to_cluster[seed] != kInvalidBlockID, "unassigned seed node " << seed);
@@ -365,7 +376,7 @@ public:
   }
 
   void finish_cluster() {
-    for (NodeID pos = _best_prefix_pos + 1; pos < _cur_pos; ++pos) {
+    for (NodeID pos = _best_prefix_pos; pos < _cur_pos; ++pos) {
       _node_to_cluster[_clusters[pos]] = kInvalidNodeID;
     }
     for (const BlockID block : _p_graph.blocks()) {
-- 
2.43.0


From 01123ebc42ad1097473264aa3e7a369f1218527e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:59 +0000
Subject: [PATCH 35/66] fix: colored LP: best-moves needs the block weight
 deltas even if local block weights are not tracked

---
 kaminpar-dist/refinement/lp/clp_refiner.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kaminpar-dist/refinement/lp/clp_refiner.cc b/kaminpar-dist/refinement/lp/clp_refiner.cc
index b78a222..b902c18 100644
--- a/kaminpar-dist/refinement/lp/clp_refiner.cc
+++ b/kaminpar-dist/refinement/lp/clp_refiner.cc
@@ -218,7 +218,7 @@ bool ColoredLPRefiner::refine() {
       });
     }
 
-    if (_ctx.track_local_block_weights && _block_weight_deltas.size() < _p_ctx.k) {
+    if (_block_weight_deltas.size() < _p_ctx.k) {
       _block_weight_deltas.resize(_p_ctx.k);
       _p_graph.pfor_blocks([&](const BlockID b) { _block_weight_deltas[b] = 0; });
     }
-- 
2.43.0


From d4007e7c01c8ea6a60415b406d26d2c5f9f4e65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:06 +0000
Subject: [PATCH 36/66] fix: dist node balancer: terminate if overloaded blocks
 only contain nodes that fit into no other block

---
 .../refinement/balancer/node_balancer.cc      | 28 ++++++++++++++++---
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/kaminpar-dist/refinement/balancer/node_balancer.cc b/kaminpar-dist/refinement/balancer/node_balancer.cc
index b8b71e3..cff3fb4 100644
--- a/kaminpar-dist/refinement/balancer/node_balancer.cc
+++ b/kaminpar-dist/refinement/balancer/node_balancer.cc
@@ -7,6 +7,8 @@
  ******************************************************************************/
 #include "kaminpar-dist/refinement/balancer/node_balancer.h"
 
+#include <algorithm>
+
 #include "kaminpar-mpi/wrapper.h"
 
 #include "kaminpar-dist/datastructures/distributed_partitioned_graph.h"
@@ -278,18 +280,36 @@ private:
 
         if (from == to) {
           // Look for next block that can take node
-          while (cur == from ||
-                 _p_graph.block_weight(cur) + weight > _p_ctx.graph->max_block_weight(cur)) {
+          BlockID num_tried = 0;
+          while (num_tried < _p_ctx.k &&
+                 (cur == from ||
+                  _p_graph.block_weight(cur) + weight > _p_ctx.graph->max_block_weight(cur))) {
+            ++num_tried;
             ++cur;
             if (cur >= _p_ctx.k) {
               cur = 0;
             }
           }
 
+          // Node does not fit into any block
+          if (num_tried == _p_ctx.k) {
+            continue;
+          }
+
           to = cur;
           perform_move(candidate, true);
         }
       }
+
+      // Drop candidates that could not be moved
+      candidates.erase(
+          std::remove_if(
+              candidates.begin(),
+              candidates.end(),
+              [](const auto &candidate) { return candidate.from == candidate.to; }
+          ),
+          candidates.end()
+      );
     }
     STOP_TIMER();
     TIMER_BARRIER(_graph.communicator());
@@ -722,13 +742,13 @@ private:
   void switch_to_stalled() {
     TIMER_BARRIER(_graph.communicator());
 
-    _stalled = true;
-
     // Reinit the balancer to fix blocks that were not overloaded in the beginning, but are
     // overloaded now due to imbalanced parallel moves
     START_TIMER("Reinitialize");
     reinit();
     STOP_TIMER();
+
+    _stalled = true; // reinit() resets the flag
     TIMER_BARRIER(_graph.communicator());
   }
 
-- 
2.43.0


From 80bac1b3dba96340a60a8ebc50b7996d937b7481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:39 +0000
Subject: [PATCH 37/66] fix: dist cluster balancer: stop if the balance cannot
 be improved after switching the strategy

---
 kaminpar-dist/refinement/balancer/cluster_balancer.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/kaminpar-dist/refinement/balancer/cluster_balancer.cc b/kaminpar-dist/refinement/balancer/cluster_balancer.cc
index 06c3b2f..1477b35 100644
--- a/kaminpar-dist/refinement/balancer/cluster_balancer.cc
+++ b/kaminpar-dist/refinement/balancer/cluster_balancer.cc
@@ -355,9 +355,7 @@ bool ClusterBalancer::refine() {
     // Abort if we couldn't improve balance
     const double next_imbalance_distance = metrics::imbalance_l1(_p_graph, _p_ctx);
     if (next_imbalance_distance >= prev_imbalance_distance) {
-      if ((!_cb_ctx.switch_to_sequential_after_stallmate ||
-           !_cb_ctx.switch_to_singleton_after_stallmate) &&
-          _stalled) {
+      if (_stalled) {
         if (mpi::get_comm_rank(_p_graph.communicator()) == 0) {
           LOG_WARNING << "Stallmate: imbalance distance " << next_imbalance_distance
                       << " could not be improved in round " << round;
-- 
2.43.0


From 032334db845a632dade88319b33b3692c3aef9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:18 +0000
Subject: [PATCH 38/66] fix: dist cluster balancer: LP clusters were never
 written back; colored LP applied block weight deltas twice

---
 kaminpar-dist/refinement/balancer/clusters.cc | 5 ++++-
 kaminpar-dist/refinement/lp/clp_refiner.cc    | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/kaminpar-dist/refinement/balancer/clusters.cc b/kaminpar-dist/refinement/balancer/clusters.cc
index af5273f..0454d09 100644
--- a/kaminpar-dist/refinement/balancer/clusters.cc
+++ b/kaminpar-dist/refinement/balancer/clusters.cc
@@ -538,7 +538,10 @@ Clusters build_local_clusters(
   clusterer->set_communities(p_graph.partition());
 
   StaticArray<NodeID> clustering(p_graph.total_n());
-  StaticArray<GlobalNodeID> casted(std::ceil(1.0 * p_graph.total_n() / 2), clustering.data());
+  StaticArray<GlobalNodeID> casted(
+      static_cast<std::size_t>(std::ceil(1.0 * p_graph.total_n() / 2)),
+      reinterpret_cast<GlobalNodeID *>(clustering.data())
+  );
   clusterer->cluster(casted, p_graph.graph());
 
   std::vector<NodeID> cluster_to_move_set(p_graph.n());
diff --git a/kaminpar-dist/refinement/lp/clp_refiner.cc b/kaminpar-dist/refinement/lp/clp_refiner.cc
index b902c18..e748e05 100644
--- a/kaminpar-dist/refinement/lp/clp_refiner.cc
+++ b/kaminpar-dist/refinement/lp/clp_refiner.cc
@@ -559,6 +559,7 @@ NodeID ColoredLPRefiner::perform_local_moves(const ColorID c) {
     );
     _p_graph.pfor_blocks([&](const BlockID b) {
       _p_graph.set_block_weight(b, _p_graph.block_weight(b) + _block_weight_deltas[b]);
+      _block_weight_deltas[b] = 0; // Applied: do not apply them again in the next commit round
     });
   };
 
-- 
2.43.0


From 3552b7494f0e728bc693e12cdd5352935d7cdb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:32 +0000
Subject: [PATCH 39/66] fix: colored LP: update block weight deltas atomically

---
 kaminpar-dist/refinement/lp/clp_refiner.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/kaminpar-dist/refinement/lp/clp_refiner.cc b/kaminpar-dist/refinement/lp/clp_refiner.cc
index e748e05..27040ba 100644
--- a/kaminpar-dist/refinement/lp/clp_refiner.cc
+++ b/kaminpar-dist/refinement/lp/clp_refiner.cc
@@ -842,7 +842,9 @@ NodeID ColoredLPRefiner::find_moves(const ColorID c) {
 
           if (block != u_block) {
             if ((_ctx.track_local_block_weights &&
-                 _p_graph.block_weight(block) + _block_weight_deltas[block] + u_weight >
+                 _p_graph.block_weight(block) +
+                         __atomic_load_n(&_block_weight_deltas[block], __ATOMIC_RELAXED) +
+                         u_weight >
                      _p_ctx.graph->max_block_weight(block)) ||
                 (!_ctx.track_local_block_weights &&
                  _p_graph.block_weight(block) + u_weight > _p_ctx.graph->max_block_weight(block))) {
@@ -864,8 +866,8 @@ NodeID ColoredLPRefiner::find_moves(const ColorID c) {
           ++num_moved_nodes;
 
           if (_ctx.track_local_block_weights) {
-            _block_weight_deltas[u_block] -= u_weight;
-            _block_weight_deltas[best_block] += u_weight;
+            __atomic_fetch_sub(&_block_weight_deltas[u_block], u_weight, __ATOMIC_RELAXED);
+            __atomic_fetch_add(&_block_weight_deltas[best_block], u_weight, __ATOMIC_RELAXED);
           }
         }
 
-- 
2.43.0


From 9c21d742c5976f7d630059a28dd8cfb98179c778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:02 +0000
Subject: [PATCH 40/66] fix: colored LP: reject best-moves that would overload
 blocks on a single process

---
 kaminpar-dist/refinement/lp/clp_refiner.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/kaminpar-dist/refinement/lp/clp_refiner.cc b/kaminpar-dist/refinement/lp/clp_refiner.cc
index 27040ba..b3526ff 100644
--- a/kaminpar-dist/refinement/lp/clp_refiner.cc
+++ b/kaminpar-dist/refinement/lp/clp_refiner.cc
@@ -402,6 +402,12 @@ auto ColoredLPRefiner::reduce_move_candidates(std::vector<MoveCandidate> &&candi
   const int rank = mpi::get_comm_rank(_p_graph.communicator());
   KASSERT(math::is_power_of_2(size), "#PE must be a power of two", assert::always);
 
+  // Special case: if we only have one PE, combine with an empty buffer to remove moves that would
+  // overload blocks
+  if (size == 1) {
+    return reduce_move_candidates(std::move(candidates), {});
+  }
+
   int active_size = size;
   while (active_size > 1) {
     // false = receiver
-- 
2.43.0


From b9eb7e4e5d97249a55af4c2a7702553bccf46472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:38 +0000
Subject: [PATCH 41/66] fix: displacements of gathered distributions start with
 an uninitialised value

---
 kaminpar-mpi/wrapper.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kaminpar-mpi/wrapper.h b/kaminpar-mpi/wrapper.h
index 0b72de3..38d4c2b 100644
--- a/kaminpar-mpi/wrapper.h
+++ b/kaminpar-mpi/wrapper.h
@@ -414,9 +414,9 @@ inline Container<T> build_distribution_from_local_count(const T value, MPI_Comm
   const auto [size, rank] = get_comm_info(comm);
 
   Container<T> distribution(size + 1);
+  distribution.front() = 0;
   allgather(&value, 1, distribution.data() + 1, 1, comm);
   parallel::prefix_sum(distribution.begin(), distribution.end(), distribution.begin());
-  distribution.front() = 0;
 
   return distribution;
 }
@@ -435,9 +435,9 @@ inline NoinitVector<int> build_displs_from_value(const T original_value, MPI_Com
   const int value = asserting_cast<int>(original_value);
 
   NoinitVector<int> displs(get_comm_size(comm) + 1);
+  displs.front() = 0;
   allgather(&value, 1, displs.data() + 1, 1, comm);
   parallel::prefix_sum(displs.begin(), displs.end(), displs.begin());
-  displs.front() = 0;
   return displs;
 }
 
-- 
2.43.0


From 2201ed261cd0d22140eac74f241cbbc75e1f6a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:38 +0000
Subject: [PATCH 42/66] fix: local cluster contraction loses the weights of
 coarse ghost nodes, gathers from its receive buffer and reads past empty
 graphs

---
 .../contraction/local_cluster_contraction.cc  | 23 ++++++++++++++-----
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/kaminpar-dist/coarsening/contraction/local_cluster_contraction.cc b/kaminpar-dist/coarsening/contraction/local_cluster_contraction.cc
index 7460298..605258c 100644
--- a/kaminpar-dist/coarsening/contraction/local_cluster_contraction.cc
+++ b/kaminpar-dist/coarsening/contraction/local_cluster_contraction.cc
@@ -89,13 +89,12 @@ std::unique_ptr<CoarseGraph> contract_local_clustering(
       leader_mapping.begin(), leader_mapping.begin() + graph.n(), leader_mapping.begin()
   );
 
-  const NodeID c_n = leader_mapping.back();
+  const NodeID c_n = graph.n() > 0 ? leader_mapping.back() : 0;
   const GlobalNodeID last_node = mpi::scan(static_cast<GlobalNodeID>(c_n), MPI_SUM, comm);
   const GlobalNodeID first_node = last_node - c_n;
 
   StaticArray<GlobalNodeID> c_node_distribution(size + 1);
-  c_node_distribution[rank + 1] = last_node;
-  mpi::allgather(&c_node_distribution[rank + 1], 1, c_node_distribution.data() + 1, 1, comm);
+  mpi::allgather(&last_node, 1, c_node_distribution.data() + 1, 1, comm);
 
   StaticArray<NodeID> mapping(graph.total_n());
   graph.pfor_nodes([&](const NodeID u) { mapping[u] = leader_mapping[clustering[u]] - 1; });
@@ -141,6 +140,7 @@ std::unique_ptr<CoarseGraph> contract_local_clustering(
   };
 
   graph::GhostNodeMapper ghost_mapper(rank, c_node_distribution);
+  StaticArray<NodeWeight> c_ghost_node_weights(graph.ghost_n());
 
   mpi::graph::sparse_alltoall_interface_to_pe<CoarseGhostNode>(
       graph,
@@ -158,6 +158,7 @@ std::unique_ptr<CoarseGraph> contract_local_clustering(
           const auto &[old_global_u, new_global_u, new_weight] = recv_buffer[i];
           const NodeID old_local_u = graph.global_to_local_node(old_global_u);
           mapping[old_local_u] = ghost_mapper.new_ghost_node(new_global_u);
+          c_ghost_node_weights[old_local_u - graph.n()] = new_weight;
         });
       }
   );
@@ -267,17 +268,27 @@ std::unique_ptr<CoarseGraph> contract_local_clustering(
   // compute edge distribution
   const GlobalEdgeID last_edge = mpi::scan(static_cast<GlobalEdgeID>(c_m), MPI_SUM, comm);
   StaticArray<GlobalEdgeID> c_edge_distribution(size + 1);
-  c_edge_distribution[rank + 1] = last_edge;
-  mpi::allgather(&c_edge_distribution[rank + 1], 1, c_edge_distribution.data() + 1, 1, comm);
+  mpi::allgather(&last_edge, 1, c_edge_distribution.data() + 1, 1, comm);
 
   auto [c_global_to_ghost, c_ghost_to_global, c_ghost_owner] = ghost_mapper.finalize();
 
+  // append the weights of the coarse ghost nodes to the weights of the owned coarse nodes
+  StaticArray<NodeWeight> c_all_node_weights(c_n + c_ghost_to_global.size());
+  tbb::parallel_for<NodeID>(0, c_n, [&](const NodeID c_u) {
+    c_all_node_weights[c_u] = c_node_weights[c_u];
+  });
+  tbb::parallel_for<NodeID>(graph.n(), graph.total_n(), [&](const NodeID u) {
+    __atomic_store_n(
+        &c_all_node_weights[mapping[u]], c_ghost_node_weights[u - graph.n()], __ATOMIC_RELAXED
+    );
+  });
+
   DistributedGraph c_graph(std::make_unique<DistributedCSRGraph>(
       std::move(c_node_distribution),
       std::move(c_edge_distribution),
       std::move(c_nodes),
       std::move(c_edges),
-      std::move(c_node_weights),
+      std::move(c_all_node_weights),
       std::move(c_edge_weights),
       std::move(c_ghost_owner),
       std::move(c_ghost_to_global),
-- 
2.43.0


From c2874a839f251dca3f84d757572c685d5ffc7c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:38 +0000
Subject: [PATCH 43/66] fix: local LP with ghost nodes uses a rating map that
 is too small and never terminates

---
 kaminpar-dist/coarsening/clustering/lp/local_lp_clusterer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kaminpar-dist/coarsening/clustering/lp/local_lp_clusterer.cc b/kaminpar-dist/coarsening/clustering/lp/local_lp_clusterer.cc
index 261fbf4..b3b0c4b 100644
--- a/kaminpar-dist/coarsening/clustering/lp/local_lp_clusterer.cc
+++ b/kaminpar-dist/coarsening/clustering/lp/local_lp_clusterer.cc
@@ -76,7 +76,7 @@ public:
   void initialize(const Graph &graph) {
     Base::allocate();
     ClusterWeightBase::allocate_cluster_weights(graph.total_n());
-    Base::initialize(&graph, graph.n());
+    Base::initialize(&graph, _ignore_ghost_nodes ? graph.n() : graph.total_n());
   }
 
   void set_max_cluster_weight(const GlobalNodeWeight max_cluster_weight) {
-- 
2.43.0


From 23be0a3ae779d76f84fdc467eba709b25a9fb937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:38 +0000
Subject: [PATCH 44/66] fix: dissolving the clusters of ghost nodes merges
 clusters regardless of their weights

---
 .../clustering/lp/local_lp_clusterer.cc       | 50 +++++++++++++------
 1 file changed, 35 insertions(+), 15 deletions(-)

diff --git a/kaminpar-dist/coarsening/clustering/lp/local_lp_clusterer.cc b/kaminpar-dist/coarsening/clustering/lp/local_lp_clusterer.cc
index b3b0c4b..256fd63 100644
--- a/kaminpar-dist/coarsening/clustering/lp/local_lp_clusterer.cc
+++ b/kaminpar-dist/coarsening/clustering/lp/local_lp_clusterer.cc
@@ -107,24 +107,44 @@ public:
 
     // dissolve all clusters owned by ghost nodes
     if (!_ignore_ghost_nodes) {
+      dissolve_ghost_clusters();
+    }
+  }
+
+  void dissolve_ghost_clusters() {
+    // The label of a node that joined another cluster might still be used by other nodes: only use
+    // free labels, otherwise we would merge clusters regardless of their weights. There are always
+    // enough free labels, since each label that is used by owned nodes takes up at least one node.
+    StaticArray<std::uint8_t> used(_graph->n());
+    _graph->pfor_nodes([&](const NodeID u) {
+      const ClusterID u_cluster = cluster(u);
+      if (_graph->is_owned_node(u_cluster)) {
+        __atomic_store_n(&used[u_cluster], 1, __ATOMIC_RELAXED);
+      }
+    });
+
+    ClusterID next_label = 0;
+    const auto take_free_label = [&] {
+      while (used[next_label]) {
+        ++next_label;
+      }
+      return next_label++;
+    };
+
+    for (const NodeID u : _graph->nodes()) {
+      const ClusterID u_cluster = cluster(u);
+      if (!_graph->is_ghost_node(u_cluster)) {
+        continue;
+      }
+
       if (_keep_ghost_clusters) {
-        for (NodeID u : _graph->nodes()) {
-          const ClusterID u_cluster = cluster(u);
-          if (_graph->is_ghost_node(u_cluster)) {
-            // abuse cluster(u_cluster) to remap the whole cluster
-            if (_graph->is_ghost_node(cluster(u_cluster))) {
-              move_node(u_cluster, u);
-            }
-
-            move_node(u, cluster(u_cluster));
-          }
+        // abuse cluster(u_cluster) to remap the whole cluster
+        if (_graph->is_ghost_node(cluster(u_cluster))) {
+          move_node(u_cluster, take_free_label());
         }
+        move_node(u, cluster(u_cluster));
       } else {
-        graph.pfor_nodes([&](const NodeID u) {
-          if (_graph->is_ghost_node(cluster(u))) {
-            move_node(u, u);
-          }
-        });
+        move_node(u, take_free_label());
       }
     }
   }
-- 
2.43.0


From 1cb97feaaba396e4909303018696cbfbe3087116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:23 +0000
Subject: [PATCH 45/66] fix: start at the node weight when reading a part of a
 METIS file

The distributed reader first searches the first node of each process and then
seeks to it. It recorded the position after the weight of the node, such that
graphs with node weights were read wrongly by every process.
---
 apps/io/dist_metis_parser.cc | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/apps/io/dist_metis_parser.cc b/apps/io/dist_metis_parser.cc
index 63cf4dd..476af79 100644
--- a/apps/io/dist_metis_parser.cc
+++ b/apps/io/dist_metis_parser.cc
@@ -85,9 +85,9 @@ void parse_graph(
     NextNodeCB &&next_node_cb,
     NextEdgeCB &&next_edge_cb
 ) {
-  static_assert(std::is_invocable_v<NextNodeCB, std::uint64_t>);
+  static_assert(std::is_invocable_v<NextNodeCB, std::uint64_t, std::size_t>);
   static_assert(std::is_invocable_v<NextEdgeCB, std::uint64_t, std::uint64_t>);
-  constexpr bool stoppable = std::is_invocable_r_v<bool, NextNodeCB, std::uint64_t>;
+  constexpr bool stoppable = std::is_invocable_r_v<bool, NextNodeCB, std::uint64_t, std::size_t>;
 
   for (std::uint64_t u = 0; u < header.num_nodes; ++u) {
     toker.skip_spaces();
@@ -96,17 +96,20 @@ void parse_graph(
       toker.skip_spaces();
     }
 
+    // Parsing can be resumed at this node by seeking to this position
+    const std::size_t position = toker.position();
+
     std::uint64_t node_weight = 1;
     if (header.has_node_weights) {
       node_weight = toker.scan_uint();
     }
 
     if constexpr (stoppable) {
-      if (next_node_cb(node_weight)) {
+      if (next_node_cb(node_weight, position)) {
         return;
       }
     } else {
-      next_node_cb(node_weight);
+      next_node_cb(node_weight, position);
     }
 
     while (std::isdigit(toker.current())) {
@@ -156,7 +159,7 @@ std::tuple<NodeID, NodeID, EdgeID, std::size_t> find_node_by_node(
   parse_graph(
       toker,
       header,
-      [&](const auto) {
+      [&](const auto, const std::size_t position) {
         if (current_node < first_node) {
           current_node += 1;
           return false;
@@ -164,7 +167,7 @@ std::tuple<NodeID, NodeID, EdgeID, std::size_t> find_node_by_node(
 
         if (current_node < last_node) {
           if (current_node - first_node == 0) {
-            start_pos = toker.position();
+            start_pos = position;
             actual_first_edge = current_edge;
           }
 
@@ -197,7 +200,7 @@ std::tuple<NodeID, NodeID, EdgeID, std::size_t> find_node_by_edge(
   parse_graph(
       toker,
       header,
-      [&](const auto) {
+      [&](const auto, const std::size_t position) {
         if (current_edge < first_edge) {
           first_node += 1;
           return false;
@@ -205,7 +208,7 @@ std::tuple<NodeID, NodeID, EdgeID, std::size_t> find_node_by_edge(
 
         if (current_edge < last_edge) {
           if (length == 0) {
-            start_pos = toker.position();
+            start_pos = position;
             actual_first_edge = current_edge;
           }
 
@@ -238,7 +241,7 @@ std::tuple<NodeID, NodeID, EdgeID, std::size_t> find_node_by_memory_space(
   parse_graph(
       toker,
       header,
-      [&](const auto) {
+      [&](const auto, const std::size_t position) {
         std::size_t memory_space = first_node * sizeof(EdgeID) + current_edge * sizeof(NodeID);
         if (memory_space < memory_space_start) {
           first_node += 1;
@@ -248,7 +251,7 @@ std::tuple<NodeID, NodeID, EdgeID, std::size_t> find_node_by_memory_space(
         memory_space += length * sizeof(EdgeID);
         if (memory_space < memory_space_stop) {
           if (length == 0) {
-            start_pos = toker.position();
+            start_pos = position;
             first_edge = current_edge;
           }
 
@@ -365,7 +368,7 @@ DistributedCSRGraph csr_read(
     parse_graph(
         toker,
         header,
-        [&](const auto weight) {
+        [&](const auto weight, const auto) {
           nodes[node] = edge;
 
           if (header.has_node_weights) {
@@ -497,7 +500,7 @@ DistributedCompressedGraph compress_read(
     parse_graph(
         toker,
         header,
-        [&](const auto weight) {
+        [&](const auto weight, const auto) {
           if (node > 0) {
             builder.add(node - 1, neighbourhood);
             neighbourhood.clear();
-- 
2.43.0


From 8f099a9804c5c36fdbe5d32a62516a469cd787d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:43 +0000
Subject: [PATCH 46/66] fix: report truncated ParHiP files in the distributed
 reader

The sections of the file were accessed without checking that the file contains
them.
---
 apps/io/dist_parhip_parser.cc | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/apps/io/dist_parhip_parser.cc b/apps/io/dist_parhip_parser.cc
index f5d8ebf..8d46912 100644
--- a/apps/io/dist_parhip_parser.cc
+++ b/apps/io/dist_parhip_parser.cc
@@ -51,7 +51,7 @@ public:
         num_nodes(num_nodes),
         num_edges(num_edges) {}
 
-  void validate() const {
+  void validate(const kaminpar::io::BinaryReader &reader) const {
     if (has_64_bit_node_id) {
       if (sizeof(NodeID) != 8) {
         LOG_ERROR << "The stored graph uses 64-Bit node IDs but this build uses 32-Bit node IDs.";
@@ -99,6 +99,15 @@ public:
         std::exit(1);
       }
     }
+
+    const std::size_t length = reader.length();
+    if (num_nodes >= length / sizeof(EdgeID) || num_edges > length / sizeof(NodeID) ||
+        kSize + (num_nodes + 1) * sizeof(EdgeID) + num_edges * sizeof(NodeID) +
+                (has_node_weights ? num_nodes * sizeof(NodeWeight) : 0) +
+                (has_edge_weights ? num_edges * sizeof(EdgeWeight) : 0) >
+            length) {
+      throw kaminpar::io::BinaryReaderException("The file that stores the graph is truncated");
+    }
   }
 };
 
@@ -203,7 +212,7 @@ DistributedCSRGraph csr_read(
   const auto num_nodes = reader.read<std::uint64_t>(sizeof(std::uint64_t));
   const auto num_edges = reader.read<std::uint64_t>(sizeof(std::uint64_t) * 2);
   const ParhipHeader header(version, num_nodes, num_edges);
-  header.validate();
+  header.validate(reader);
 
   std::size_t position = ParhipHeader::kSize;
 
@@ -352,7 +361,7 @@ DistributedCompressedGraph compressed_read(
   const auto num_nodes = reader.read<std::uint64_t>(sizeof(std::uint64_t));
   const auto num_edges = reader.read<std::uint64_t>(sizeof(std::uint64_t) * 2);
   const ParhipHeader header(version, num_nodes, num_edges);
-  header.validate();
+  header.validate(reader);
 
   std::size_t position = ParhipHeader::kSize;
 
-- 
2.43.0


From 9770469db595cdb68e803842c29d867e516e1838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:25 +0000
Subject: [PATCH 47/66] fix: report failures when writing a distributed
 partition

Failed writes (for instance, on a full disk) went unnoticed and left a partial
partition file behind.
---
 apps/io/dist_io.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apps/io/dist_io.cc b/apps/io/dist_io.cc
index f7af985..5f23fc4 100644
--- a/apps/io/dist_io.cc
+++ b/apps/io/dist_io.cc
@@ -18,14 +18,18 @@ void write(const std::string &filename, const std::vector<BlockID> &partition) {
 
   if (rank == 0) {
     std::ofstream out(filename, std::ios::trunc);
+    out.exceptions(std::ios::failbit | std::ios::badbit); // report failures
+    out.close();
   }
 
   for (PEID pe = 0; pe < size; ++pe) {
     if (pe == rank) {
       std::ofstream out(filename, std::ios::app);
+      out.exceptions(std::ios::failbit | std::ios::badbit); // report failures
       for (const auto &block : partition) {
         out << block << "\n";
       }
+      out.close();
     }
     mpi::barrier(MPI_COMM_WORLD);
   }
-- 
2.43.0


From fe0a09d416374b818be2656063b97b2c2f6de869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:51 +0000
Subject: [PATCH 48/66] fix: skip node sizes in the distributed METIS reader

Node sizes are announced to be ignored, but were read as node weights or
neighbors instead.
---
 apps/io/dist_metis_parser.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/apps/io/dist_metis_parser.cc b/apps/io/dist_metis_parser.cc
index 476af79..3a628c7 100644
--- a/apps/io/dist_metis_parser.cc
+++ b/apps/io/dist_metis_parser.cc
@@ -28,6 +28,7 @@ namespace {
 struct MetisHeader {
   std::uint64_t num_nodes = 0;
   std::uint64_t num_edges = 0;
+  bool has_node_sizes = false;
   bool has_node_weights = false;
   bool has_edge_weights = false;
 };
@@ -49,9 +50,9 @@ MetisHeader parse_header(MappedFileToker &toker) {
     LOG_WARNING << "invalid or unsupported graph format";
   }
 
-  [[maybe_unused]] const bool has_node_sizes = format / 100; // == 1xx
-  const bool has_node_weights = (format % 100) / 10;         // == x1x
-  const bool has_edge_weights = format % 10;                 // == xx1
+  const bool has_node_sizes = format / 100;          // == 1xx
+  const bool has_node_weights = (format % 100) / 10; // == x1x
+  const bool has_edge_weights = format % 10;         // == xx1
 
   if (has_node_sizes) {
     LOG_WARNING << "ignoring node sizes";
@@ -73,6 +74,7 @@ MetisHeader parse_header(MappedFileToker &toker) {
   return {
       .num_nodes = num_nodes,
       .num_edges = num_edges,
+      .has_node_sizes = has_node_sizes,
       .has_node_weights = has_node_weights,
       .has_edge_weights = has_edge_weights,
   };
@@ -99,6 +101,10 @@ void parse_graph(
     // Parsing can be resumed at this node by seeking to this position
     const std::size_t position = toker.position();
 
+    if (header.has_node_sizes) {
+      toker.skip_uint();
+    }
+
     std::uint64_t node_weight = 1;
     if (header.has_node_weights) {
       node_weight = toker.scan_uint();
-- 
2.43.0


From 8c3b391bc4c3e93da31ca8a814a05ee1179142b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:20 +0000
Subject: [PATCH 49/66] fix: report malformed METIS files in the distributed
 reader

Neighbors outside of the graph, more or fewer edges than announced in the header
and truncated files were accepted, leading to wrong graphs or invalid memory
accesses.
---
 apps/io/dist_metis_parser.cc | 49 +++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 17 deletions(-)

diff --git a/apps/io/dist_metis_parser.cc b/apps/io/dist_metis_parser.cc
index 3a628c7..c9569ae 100644
--- a/apps/io/dist_metis_parser.cc
+++ b/apps/io/dist_metis_parser.cc
@@ -58,18 +58,15 @@ MetisHeader parse_header(MappedFileToker &toker) {
     LOG_WARNING << "ignoring node sizes";
   }
 
-  KASSERT(
-      num_nodes <= static_cast<std::uint64_t>(std::numeric_limits<NodeID>::max()),
-      "number of nodes is too large for the node ID type"
-  );
-  KASSERT(
-      num_edges <= static_cast<std::uint64_t>(std::numeric_limits<EdgeID>::max()),
-      "number of edges is too large for the edge ID type"
-  );
-  KASSERT(
-      num_edges <= (num_nodes * (num_nodes - 1)) / 2,
-      "specified number of edges is impossibly large"
-  );
+  if (num_nodes >= static_cast<std::uint64_t>(std::numeric_limits<NodeID>::max())) {
+    throw TokerException("The number of nodes is too large for the node ID type");
+  }
+  if (num_edges > static_cast<std::uint64_t>(std::numeric_limits<EdgeID>::max())) {
+    throw TokerException("The number of edges is too large for the edge ID type");
+  }
+  if (num_edges > toker.length()) { // each edge is listed twice
+    throw TokerException("The specified number of edges is impossibly large");
+  }
 
   return {
       .num_nodes = num_nodes,
@@ -84,6 +81,7 @@ template <typename NextNodeCB, typename NextEdgeCB>
 void parse_graph(
     MappedFileToker &toker,
     const MetisHeader header,
+    const std::uint64_t num_nodes,
     NextNodeCB &&next_node_cb,
     NextEdgeCB &&next_edge_cb
 ) {
@@ -91,7 +89,8 @@ void parse_graph(
   static_assert(std::is_invocable_v<NextEdgeCB, std::uint64_t, std::uint64_t>);
   constexpr bool stoppable = std::is_invocable_r_v<bool, NextNodeCB, std::uint64_t, std::size_t>;
 
-  for (std::uint64_t u = 0; u < header.num_nodes; ++u) {
+  std::uint64_t num_edges_read = 0;
+  for (std::uint64_t u = 0; u < num_nodes; ++u) {
     toker.skip_spaces();
     while (toker.current() == '%') {
       toker.skip_line();
@@ -126,6 +125,13 @@ void parse_graph(
         edge_weight = toker.scan_uint();
       }
 
+      if (v >= header.num_nodes) {
+        throw TokerException("Neighbor out of bounds");
+      }
+      if (++num_edges_read > header.num_edges) {
+        throw TokerException("The file contains more edges than specified in its header");
+      }
+
       next_edge_cb(edge_weight, v);
     }
 
@@ -165,6 +171,7 @@ std::tuple<NodeID, NodeID, EdgeID, std::size_t> find_node_by_node(
   parse_graph(
       toker,
       header,
+      header.num_nodes,
       [&](const auto, const std::size_t position) {
         if (current_node < first_node) {
           current_node += 1;
@@ -206,6 +213,7 @@ std::tuple<NodeID, NodeID, EdgeID, std::size_t> find_node_by_edge(
   parse_graph(
       toker,
       header,
+      header.num_nodes,
       [&](const auto, const std::size_t position) {
         if (current_edge < first_edge) {
           first_node += 1;
@@ -247,6 +255,7 @@ std::tuple<NodeID, NodeID, EdgeID, std::size_t> find_node_by_memory_space(
   parse_graph(
       toker,
       header,
+      header.num_nodes,
       [&](const auto, const std::size_t position) {
         std::size_t memory_space = first_node * sizeof(EdgeID) + current_edge * sizeof(NodeID);
         if (memory_space < memory_space_start) {
@@ -312,7 +321,7 @@ DistributedCSRGraph csr_read(
     const MPI_Comm comm
 ) {
   MappedFileToker toker(filename);
-  MetisHeader header = parse_header(toker);
+  const MetisHeader header = parse_header(toker);
 
   const mpi::PEID size = mpi::get_comm_size(comm);
   const mpi::PEID rank = mpi::get_comm_rank(comm);
@@ -350,6 +359,9 @@ DistributedCSRGraph csr_read(
       edge_distribution.begin(),
       static_cast<GlobalEdgeID>(0)
   );
+  if (edge_distribution.back() != header.num_edges) {
+    throw TokerException("The file contains fewer edges than specified in its header");
+  }
 
   graph::GhostNodeMapper mapper(rank, node_distribution);
   RECORD("nodes") StaticArray<EdgeID> nodes(num_local_nodes + 1, static_array::noinit);
@@ -369,11 +381,11 @@ DistributedCSRGraph csr_read(
   EdgeID edge = 0;
   if (num_local_nodes > 0) {
     toker.seek(start_pos);
-    header.num_nodes = num_local_nodes;
 
     parse_graph(
         toker,
         header,
+        num_local_nodes,
         [&](const auto weight, const auto) {
           nodes[node] = edge;
 
@@ -447,7 +459,7 @@ DistributedCompressedGraph compress_read(
     const MPI_Comm comm
 ) {
   MappedFileToker toker(filename);
-  MetisHeader header = parse_header(toker);
+  const MetisHeader header = parse_header(toker);
 
   const mpi::PEID size = mpi::get_comm_size(comm);
   const mpi::PEID rank = mpi::get_comm_rank(comm);
@@ -485,6 +497,9 @@ DistributedCompressedGraph compress_read(
       edge_distribution.begin(),
       static_cast<GlobalEdgeID>(0)
   );
+  if (edge_distribution.back() != header.num_edges) {
+    throw TokerException("The file contains fewer edges than specified in its header");
+  }
 
   CompactGhostNodeMappingBuilder mapper(rank, node_distribution);
   CompressedNeighborhoodsBuilder<NodeID, EdgeID, EdgeWeight> builder(
@@ -498,7 +513,6 @@ DistributedCompressedGraph compress_read(
 
   if (num_local_nodes > 0) {
     toker.seek(start_pos);
-    header.num_nodes = num_local_nodes;
 
     std::vector<std::pair<NodeID, EdgeWeight>> neighbourhood;
     NodeID node = 0;
@@ -506,6 +520,7 @@ DistributedCompressedGraph compress_read(
     parse_graph(
         toker,
         header,
+        num_local_nodes,
         [&](const auto weight, const auto) {
           if (node > 0) {
             builder.add(node - 1, neighbourhood);
-- 
2.43.0


From 2e1baef6169957fe59c8d04a46705b7f4d481d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:20 +0000
Subject: [PATCH 50/66] fix: allocate one weight per node in the compressing
 METIS reader

The array was sized by the number of edges, such that processes with more nodes
than edges wrote beyond its end.
---
 apps/io/dist_metis_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/io/dist_metis_parser.cc b/apps/io/dist_metis_parser.cc
index c9569ae..138db10 100644
--- a/apps/io/dist_metis_parser.cc
+++ b/apps/io/dist_metis_parser.cc
@@ -508,7 +508,7 @@ DistributedCompressedGraph compress_read(
 
   StaticArray<NodeWeight> node_weights;
   if (header.has_node_weights) {
-    node_weights.resize(num_local_edges, static_array::noinit);
+    node_weights.resize(num_local_nodes, static_array::noinit);
   }
 
   if (num_local_nodes > 0) {
-- 
2.43.0


From 51d9dbd823903283ccb22799d25327e4d2e1ca54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:43 +0000
Subject: [PATCH 51/66] fix: keep isolated nodes at the end when balancing
 edges while reading

Nodes behind the last edge were not assigned to any process, thus the
distributed graph had fewer nodes than the file.
---
 apps/io/dist_metis_parser.cc  | 4 +++-
 apps/io/dist_parhip_parser.cc | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/apps/io/dist_metis_parser.cc b/apps/io/dist_metis_parser.cc
index 138db10..87f0f35 100644
--- a/apps/io/dist_metis_parser.cc
+++ b/apps/io/dist_metis_parser.cc
@@ -297,7 +297,9 @@ std::tuple<NodeID, NodeID, EdgeID, std::size_t> find_local_nodes(
   }
   case GraphDistribution::BALANCED_EDGES: {
     const auto [first_edge, last_edge] = compute_chunks(header.num_edges, size, rank);
-    return find_node_by_edge(toker, header, first_edge, last_edge);
+    // The last process also receives the isolated nodes after the last edge
+    const bool is_last = rank + 1 == size;
+    return find_node_by_edge(toker, header, first_edge, is_last ? last_edge + 1 : last_edge);
   }
   case GraphDistribution::BALANCED_MEMORY_SPACE: {
     const std::size_t total_memory_space =
diff --git a/apps/io/dist_parhip_parser.cc b/apps/io/dist_parhip_parser.cc
index 8d46912..8a415ec 100644
--- a/apps/io/dist_parhip_parser.cc
+++ b/apps/io/dist_parhip_parser.cc
@@ -171,8 +171,11 @@ std::pair<std::uint64_t, std::uint64_t> find_local_nodes(
 
     const std::uint64_t first_node =
         find_node(num_nodes, num_edges - 1, first_edge, std::forward<Lambda>(fetch_edge));
+    // The last process also receives the isolated nodes after the last edge
     const std::uint64_t last_node =
-        find_node(num_nodes, num_edges - 1, last_edge, std::forward<Lambda>(fetch_edge));
+        (rank + 1 == size)
+            ? num_nodes
+            : find_node(num_nodes, num_edges - 1, last_edge, std::forward<Lambda>(fetch_edge));
 
     return std::make_pair(first_node, last_node);
   }
-- 
2.43.0


From 805eafb51eef50196a643f37d2829db1e8c71f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:48 +0000
Subject: [PATCH 52/66] fix: relabeling clusters relies on an inexact number of
 non-empty clusters

---
 kaminpar-shm/label_propagation.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/kaminpar-shm/label_propagation.h b/kaminpar-shm/label_propagation.h
index d48da25..82557e8 100644
--- a/kaminpar-shm/label_propagation.h
+++ b/kaminpar-shm/label_propagation.h
@@ -273,9 +273,6 @@ protected:
     SCOPED_HEAP_PROFILER("Relabel");
     SCOPED_TIMER("Relabel");
 
-    // Update initial num clusters since the maximum cluster ID is now different.
-    ClusterID num_actual_clusters = _current_num_clusters;
-    _initial_num_clusters = num_actual_clusters;
     _relabeled = true;
 
     // Store for each node whether it joined another cluster as this information gets lost. This
@@ -302,7 +299,13 @@ protected:
     });
 
     parallel::prefix_sum(mapping.begin(), mapping.end(), mapping.begin());
-    KASSERT(num_actual_clusters == mapping[_graph->n() - 1]);
+
+    // Update initial num clusters since the maximum cluster ID is now different. Do not rely on the
+    // current number of clusters: nodes might have joined clusters that were just left by all other
+    // nodes.
+    const ClusterID num_actual_clusters = mapping[_graph->n() - 1];
+    _initial_num_clusters = num_actual_clusters;
+    _current_num_clusters = num_actual_clusters;
 
     tbb::parallel_for(tbb::blocked_range<NodeID>(0, _graph->n()), [&](const auto &r) {
       for (NodeID u = r.begin(); u != r.end(); ++u) {
-- 
2.43.0


From 61c45ce09e98a9976bec5aa974205758deb57f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:48 +0000
Subject: [PATCH 53/66] fix: two-hop matching exceeds the maximum cluster
 weight

---
 kaminpar-shm/label_propagation.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/kaminpar-shm/label_propagation.h b/kaminpar-shm/label_propagation.h
index 82557e8..7152211 100644
--- a/kaminpar-shm/label_propagation.h
+++ b/kaminpar-shm/label_propagation.h
@@ -1074,7 +1074,13 @@ protected:
           derived_move_node(u, cluster);
           --_current_num_clusters;
         }
-      } else {
+      }
+    });
+
+    // Nodes that are not considered for two-hop clustering (including those that were just joined by
+    // other nodes) start as their own favored cluster.
+    tbb::parallel_for(from, std::min(to, _graph->n()), [&](const NodeID u) {
+      if (!is_considered_for_two_hop_clustering(u)) {
         _favored_clusters[u] = u;
       }
     });
-- 
2.43.0


From 4309574d406697f6f6ff360c961119b12c8e5b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:24 +0000
Subject: [PATCH 54/66] fix: the input validator missed repeated edges that are
 not stored next to each other

The check compared neighbors in file order instead of the sorted copy.
---
 apps/io/shm_input_validator.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/apps/io/shm_input_validator.cc b/apps/io/shm_input_validator.cc
index ff8744d..cfd6409 100644
--- a/apps/io/shm_input_validator.cc
+++ b/apps/io/shm_input_validator.cc
@@ -50,8 +50,9 @@ void validate_undirected_graph(
 
     // Check for multi edges
     for (EdgeID e = nodes[u] + 1; e < nodes[u + 1]; ++e) {
-      if (edges[e - 1] == edges[e]) {
-        std::cerr << "node " << u + 1 << " has multiple edges to neighbor " << edges[e] << "\n";
+      const NodeID v = std::get<0>(edges_with_weights[e]);
+      if (std::get<0>(edges_with_weights[e - 1]) == v) {
+        std::cerr << "node " << u + 1 << " has multiple edges to neighbor " << v + 1 << "\n";
         std::exit(1);
       }
     }
-- 
2.43.0


From 07ee7485647f0987574ba0f4bea472dc5742828c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:24 +0000
Subject: [PATCH 55/66] fix: KaMinPar -B/-b wrote block sizes and rearranged
 graphs with k = 0

With block weights given instead of -k, the number of blocks is the number of weights.
---
 apps/KaMinPar.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apps/KaMinPar.cc b/apps/KaMinPar.cc
index 77b42e7..f490453 100644
--- a/apps/KaMinPar.cc
+++ b/apps/KaMinPar.cc
@@ -457,6 +457,7 @@ int main(int argc, char *argv[]) {
       std::exit(1);
     }
 
+    app.k = static_cast<BlockID>(app.max_block_weight_factors.size());
     partitioner.compute_partition(
         std::move(app.max_block_weight_factors), {partition.data(), partition.size()}
     );
@@ -471,6 +472,7 @@ int main(int argc, char *argv[]) {
       std::exit(1);
     }
 
+    app.k = static_cast<BlockID>(app.max_block_weights.size());
     partitioner.compute_partition(
         std::move(app.max_block_weights), {partition.data(), partition.size()}
     );
-- 
2.43.0


From 72363a765d990822ad82dfe2adc594d80977f998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:24 +0000
Subject: [PATCH 56/66] fix: --ignore-edge-weights lost the node permutation of
 the reader

With node order external-deg-buckets, partitions were written in the wrong node order.
---
 apps/KaMinPar.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/apps/KaMinPar.cc b/apps/KaMinPar.cc
index f490453..b9f991d 100644
--- a/apps/KaMinPar.cc
+++ b/apps/KaMinPar.cc
@@ -416,12 +416,17 @@ int main(int argc, char *argv[]) {
 
   if (app.ignore_edge_weights && !ctx.compression.enabled) {
     auto &csr_graph = graph.concretize<CSRGraph>();
-    graph = {std::make_unique<CSRGraph>(
+    const bool sorted = csr_graph.sorted();
+    StaticArray<NodeID> permutation = csr_graph.take_raw_permutation();
+    auto unweighted_graph = std::make_unique<CSRGraph>(
         csr_graph.take_raw_nodes(),
         csr_graph.take_raw_edges(),
         csr_graph.take_raw_node_weights(),
-        StaticArray<EdgeWeight>{}
-    )};
+        StaticArray<EdgeWeight>{},
+        sorted
+    );
+    unweighted_graph->set_permutation(std::move(permutation));
+    graph = {std::move(unweighted_graph)};
   } else if (app.ignore_edge_weights) {
     LOG_WARNING << "Ignoring edge weights is currently only supported for uncompressed graphs; "
                    "ignoring option.";
-- 
2.43.0


From 1e8671740650cde5f93e745abec8a1601ffa650f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:24 +0000
Subject: [PATCH 57/66] fix: the preset given by -P overwrote the options of a
 -C config file

The preset is only the base configuration; run its callback before the config file is processed.
---
 apps/KaMinPar.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apps/KaMinPar.cc b/apps/KaMinPar.cc
index b9f991d..e6b3998 100644
--- a/apps/KaMinPar.cc
+++ b/apps/KaMinPar.cc
@@ -86,6 +86,7 @@ void setup_context(CLI::App &cli, ApplicationContext &app, Context &ctx) {
          [&](const std::string preset) { ctx = create_context_by_preset_name(preset); }
   )
       ->check(CLI::IsMember(get_preset_names()))
+      ->trigger_on_parse() // before -C,--config is processed, otherwise it is overwritten
       ->description(R"(Use configuration preset:
   - fast:    fastest (especially for small graphs), but lowest quality
   - default: in-between
-- 
2.43.0


From bce1e70a9d87a5c348264cc8f39371108d93f4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:24 +0000
Subject: [PATCH 58/66] fix: configurations written by --dump-config could not
 be read back or changed their meaning

Flags, empty lists and --d-dump-everything are now written such that reading them has the same meaning.
---
 kaminpar-cli/kaminpar_arguments.cc | 71 +++++++++++++++++++-----------
 1 file changed, 46 insertions(+), 25 deletions(-)

diff --git a/kaminpar-cli/kaminpar_arguments.cc b/kaminpar-cli/kaminpar_arguments.cc
index e29d3dc..c2b822e 100644
--- a/kaminpar-cli/kaminpar_arguments.cc
+++ b/kaminpar-cli/kaminpar_arguments.cc
@@ -13,6 +13,13 @@
 #include "kaminpar-shm/kaminpar.h"
 
 namespace kaminpar::shm {
+namespace {
+// capture_default_str() has no effect on flags
+const char *flag_str(const bool value) {
+  return value ? "true" : "false";
+}
+} // namespace
+
 void create_all_options(CLI::App *app, Context &ctx) {
   create_graph_compression_options(app, ctx);
   create_partitioning_options(app, ctx);
@@ -26,7 +33,7 @@ CLI::Option_group *create_graph_compression_options(CLI::App *app, Context &ctx)
   auto *compression = app->add_option_group("Graph Compression");
 
   compression->add_flag("-c,--compress", ctx.compression.enabled, "Enable graph compression")
-      ->capture_default_str();
+      ->default_str(flag_str(ctx.compression.enabled));
 
   return compression;
 }
@@ -52,13 +59,15 @@ CLI::Option_group *create_partitioning_options(CLI::App *app, Context &ctx) {
   - async-parallel: diversify initial partitioning by replicating coarse graphs each branch of the replication tree asynchronously
   - sync-parallel:  same as async-parallel, but process branches synchronously)")
       ->capture_default_str();
-  partitioning->add_option(
-      "--p-deep-initial-partitioning-load",
-      ctx.partitioning.deep_initial_partitioning_load,
-      "Fraction of cores that should be used for the coarse graph replication phase of deep MGP. A "
-      "value of '1' will replicate the graph once for every PE, whereas smaller values lead to "
-      "fewer replications."
-  );
+  partitioning
+      ->add_option(
+          "--p-deep-initial-partitioning-load",
+          ctx.partitioning.deep_initial_partitioning_load,
+          "Fraction of cores that should be used for the coarse graph replication phase of deep "
+          "MGP. A value of '1' will replicate the graph once for every PE, whereas smaller values "
+          "lead to fewer replications."
+      )
+      ->capture_default_str();
   partitioning
       ->add_option(
           "--p-min-consecutive-seq-bipartitioning-levels",
@@ -75,17 +84,22 @@ CLI::Option_group *create_partitioning_options(CLI::App *app, Context &ctx) {
       ->capture_default_str();
   partitioning
       ->add_flag("--p-refine-after-extending", ctx.partitioning.refine_after_extending_partition)
-      ->capture_default_str();
+      ->default_str(flag_str(ctx.partitioning.refine_after_extending_partition));
   partitioning
       ->add_flag(
           "--p-rb-kway-toplevel-refinement", ctx.partitioning.rb_enable_kway_toplevel_refinement
       )
       ->capture_default_str();
 
-  partitioning->add_option("--p-vcycles", ctx.partitioning.vcycles)->capture_default_str();
+  auto *vcycles = partitioning->add_option("--p-vcycles", ctx.partitioning.vcycles);
+  if (ctx.partitioning.vcycles.empty()) {
+    vcycles->run_callback_for_default(false); // leave empty lists out of dumped configurations
+  } else {
+    vcycles->capture_default_str();
+  }
   partitioning
       ->add_flag("--p-restrict-vcycle-refinement", ctx.partitioning.restrict_vcycle_refinement)
-      ->capture_default_str();
+      ->default_str(flag_str(ctx.partitioning.restrict_vcycle_refinement));
 
   create_partitioning_rearrangement_options(app, ctx);
 
@@ -189,9 +203,9 @@ Options are:
       ->capture_default_str();
 
   coarsening->add_flag("--c-forced-kc-level", ctx.coarsening.clustering.forced_kc_level)
-      ->capture_default_str();
+      ->default_str(flag_str(ctx.coarsening.clustering.forced_kc_level));
   coarsening->add_flag("--c-forced-pc-level", ctx.coarsening.clustering.forced_pc_level)
-      ->capture_default_str();
+      ->default_str(flag_str(ctx.coarsening.clustering.forced_pc_level));
   coarsening
       ->add_option(
           "--c-forced-level-upper-factor", ctx.coarsening.clustering.forced_level_upper_factor
@@ -340,13 +354,13 @@ CLI::Option_group *create_initial_partitioning_options(CLI::App *app, Context &c
   ip->add_flag(
         "--i-r-disable", ctx.initial_partitioning.refinement.disabled, "Disable initial refinement."
   )
-      ->capture_default_str();
+      ->default_str(flag_str(ctx.initial_partitioning.refinement.disabled));
   ip->add_flag(
         "--i-adaptive-epsilon",
         ctx.initial_partitioning.use_adaptive_epsilon,
         "Use adaptive epsilon."
   )
-      ->capture_default_str();
+      ->default_str(flag_str(ctx.initial_partitioning.use_adaptive_epsilon));
 
   return ip;
 }
@@ -354,7 +368,8 @@ CLI::Option_group *create_initial_partitioning_options(CLI::App *app, Context &c
 CLI::Option_group *create_refinement_options(CLI::App *app, Context &ctx) {
   auto *refinement = app->add_option_group("Refinement");
 
-  refinement->add_option("--r-algorithms", ctx.refinement.algorithms)
+  auto *algorithms = refinement->add_option("--r-algorithms", ctx.refinement.algorithms);
+  algorithms
       ->transform(CLI::CheckedTransformer(get_kway_refinement_algorithms()).description(""))
       ->description(
           R"(This option can be used multiple times to define a sequence of refinement algorithms. 
@@ -365,6 +380,9 @@ The following algorithms can be used:
   - greedy-balancer: greedy balancer)"
       )
       ->capture_default_str();
+  if (ctx.refinement.algorithms.empty()) {
+    algorithms->default_str("[noop]"); // an empty list cannot be parsed from a config file
+  }
 
   create_lp_refinement_options(app, ctx);
   create_kway_fm_refinement_options(app, ctx);
@@ -490,9 +508,9 @@ CLI::Option_group *create_kway_fm_refinement_options(CLI::App *app, Context &ctx
         "If set, compute and output detailed statistics about FM batches (can be expensive to "
         "compute on some irregular graphs)."
   )
-      ->capture_default_str();
+      ->default_str(flag_str(ctx.refinement.kway_fm.dbg_compute_batch_stats));
   fm->add_flag("--r-fm-dbg-report-progress", ctx.refinement.kway_fm.dbg_report_progress)
-      ->capture_default_str();
+      ->default_str(flag_str(ctx.refinement.kway_fm.dbg_report_progress));
 
   return fm;
 }
@@ -565,7 +583,7 @@ CLI::Option_group *create_debug_options(CLI::App *app, Context &ctx) {
           "input graph, as isolated nodes might have been removed and nodes might have been "
           "reordered."
       )
-      ->capture_default_str();
+      ->default_str(flag_str(ctx.debug.dump_toplevel_graph));
 
   debug
       ->add_flag(
@@ -575,7 +593,7 @@ CLI::Option_group *create_debug_options(CLI::App *app, Context &ctx) {
           "This partition should only be used together with the toplevel graph obtained via "
           "--d-dump-toplevel-graph."
       )
-      ->capture_default_str();
+      ->default_str(flag_str(ctx.debug.dump_toplevel_partition));
   debug
       ->add_flag(
           "--d-dump-coarsest-graph",
@@ -583,7 +601,7 @@ CLI::Option_group *create_debug_options(CLI::App *app, Context &ctx) {
           "Write the coarsest graph to disk. Note that the definition of "
           "'coarsest' depends on the partitioning scheme."
       )
-      ->capture_default_str();
+      ->default_str(flag_str(ctx.debug.dump_coarsest_graph));
 
   debug
       ->add_flag(
@@ -592,7 +610,7 @@ CLI::Option_group *create_debug_options(CLI::App *app, Context &ctx) {
           "Write partition of the coarsest graph to disk. Note that the "
           "definition of 'coarsest' depends on the partitioning scheme."
       )
-      ->capture_default_str();
+      ->default_str(flag_str(ctx.debug.dump_coarsest_partition));
 
   debug
       ->add_flag(
@@ -600,7 +618,7 @@ CLI::Option_group *create_debug_options(CLI::App *app, Context &ctx) {
           ctx.debug.dump_graph_hierarchy,
           "Write the entire graph hierarchy to disk."
       )
-      ->capture_default_str();
+      ->default_str(flag_str(ctx.debug.dump_graph_hierarchy));
 
   debug
       ->add_flag(
@@ -608,11 +626,14 @@ CLI::Option_group *create_debug_options(CLI::App *app, Context &ctx) {
           ctx.debug.dump_partition_hierarchy,
           "Write the entire partition hierarchy to disk."
       )
-      ->capture_default_str();
+      ->default_str(flag_str(ctx.debug.dump_partition_hierarchy));
 
   debug->add_flag(
       "--d-dump-everything",
-      [&](auto) {
+      [&](const auto count) {
+        if (count <= 0) { // e.g., d-dump-everything=false in a config file
+          return;
+        }
         ctx.debug.dump_toplevel_graph = true;
         ctx.debug.dump_toplevel_partition = true;
         ctx.debug.dump_coarsest_graph = true;
-- 
2.43.0


From c2abfd7a3ff5a14624796188f46b630cb5ed3009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:24 +0000
Subject: [PATCH 59/66] fix: the seed of a thread depended on whether it had
 used TBB before

current_thread_index() is negative for threads without an arena; the same seed led to different partitions within the same process.
---
 kaminpar-common/random.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/kaminpar-common/random.cc b/kaminpar-common/random.cc
index 2db5949..ecabc79 100644
--- a/kaminpar-common/random.cc
+++ b/kaminpar-common/random.cc
@@ -7,11 +7,19 @@
  ******************************************************************************/
 #include "kaminpar-common/random.h"
 
+#include <algorithm>
 #include <mutex>
 
 #include <tbb/task_arena.h>
 
 namespace kaminpar {
+namespace {
+// Threads that did not use TBB yet do not have an index
+int thread_index() {
+  return std::max(0, tbb::this_task_arena::current_thread_index());
+}
+} // namespace
+
 std::mutex Random::_create_mutex;
 std::vector<std::unique_ptr<Random>> Random::_instances;
 int Random::_seed = 0;
@@ -39,7 +47,7 @@ int Random::get_seed() {
 }
 
 Random::Random()
-    : _generator(_seed + tbb::this_task_arena::current_thread_index()),
+    : _generator(_seed + thread_index()),
       _bool_dist(0, 1),
       _real_dist(0, 1),
       _next_random_bool(0),
@@ -48,7 +56,7 @@ Random::Random()
 }
 
 void Random::reinit(const int seed) {
-  _generator = std::mt19937(seed + tbb::this_task_arena::current_thread_index());
+  _generator = std::mt19937(seed + thread_index());
   _next_random_bool = 0;
   precompute_bools();
 }
-- 
2.43.0


From c100b35e573dab1df75320d6dd80a2734e5a4882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:24 +0000
Subject: [PATCH 60/66] fix: v-cycles without coarsening crashed

The noop coarsener ignored the communities it was given.
---
 kaminpar-shm/coarsening/noop_coarsener.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/kaminpar-shm/coarsening/noop_coarsener.h b/kaminpar-shm/coarsening/noop_coarsener.h
index abf9cd7..f000d3a 100644
--- a/kaminpar-shm/coarsening/noop_coarsener.h
+++ b/kaminpar-shm/coarsening/noop_coarsener.h
@@ -7,6 +7,8 @@
  ******************************************************************************/
 #pragma once
 
+#include <span>
+
 #include "kaminpar-shm/coarsening/coarsener.h"
 #include "kaminpar-shm/datastructures/graph.h"
 #include "kaminpar-shm/datastructures/partitioned_graph.h"
@@ -17,6 +19,15 @@ class NoopCoarsener : public Coarsener {
 public:
   void initialize(const Graph *graph) final {
     _graph = graph;
+    _communities = {};
+  }
+
+  void use_communities(const std::span<const NodeID> communities) final {
+    _communities = communities;
+  }
+
+  [[nodiscard]] std::span<const NodeID> current_communities() const final {
+    return _communities;
   }
 
   bool coarsen() final {
@@ -39,5 +50,6 @@ public:
 
 private:
   const Graph *_graph = nullptr;
+  std::span<const NodeID> _communities;
 };
 } // namespace kaminpar::shm
-- 
2.43.0


From 3a66be5282da210dc95b6ce58da2e22f880dc511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:33 +0000
Subject: [PATCH 61/66] fix: extracting a largest component that is an isolated
 node wrote an uninitialized graph

The initial node was only marked by its neighbors.
---
 apps/tools/shm_connected_components_tool.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apps/tools/shm_connected_components_tool.cc b/apps/tools/shm_connected_components_tool.cc
index b68481d..3e5b9ea 100644
--- a/apps/tools/shm_connected_components_tool.cc
+++ b/apps/tools/shm_connected_components_tool.cc
@@ -137,6 +137,7 @@ template <typename Graph>
   RankCombinedBitVector<> rank_bitvector(graph.n(), false);
 
   std::stack<NodeID> next_nodes;
+  rank_bitvector.set(initial_node);
   next_nodes.push(initial_node);
   do {
     const NodeID node = next_nodes.top();
-- 
2.43.0


From 2fdf56fbedde36433db0d26f193604ed18570316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:33 +0000
Subject: [PATCH 62/66] fix: the connected components tool crashed for empty
 graphs

The histogram had no buckets and there is no initial node.
---
 apps/tools/shm_connected_components_tool.cc | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/apps/tools/shm_connected_components_tool.cc b/apps/tools/shm_connected_components_tool.cc
index 3e5b9ea..e37884e 100644
--- a/apps/tools/shm_connected_components_tool.cc
+++ b/apps/tools/shm_connected_components_tool.cc
@@ -48,7 +48,9 @@ public:
     );
   }
 
-  Histogram(const size_type max_size) : _buckets(bucket(max_size) + 1), _largest_bucket(0) {}
+  Histogram(const size_type max_size)
+      : _buckets(max_size == 0 ? 1 : bucket(max_size) + 1),
+        _largest_bucket(0) {}
 
   void add(const size_type size) {
     const size_type num_bucket = bucket(size);
@@ -137,9 +139,11 @@ template <typename Graph>
   RankCombinedBitVector<> rank_bitvector(graph.n(), false);
 
   std::stack<NodeID> next_nodes;
-  rank_bitvector.set(initial_node);
-  next_nodes.push(initial_node);
-  do {
+  if (order > 0) {
+    rank_bitvector.set(initial_node);
+    next_nodes.push(initial_node);
+  }
+  while (!next_nodes.empty()) {
     const NodeID node = next_nodes.top();
     next_nodes.pop();
 
@@ -151,7 +155,7 @@ template <typename Graph>
       rank_bitvector.set(adjacent_node);
       next_nodes.push(adjacent_node);
     });
-  } while (!next_nodes.empty());
+  }
 
   rank_bitvector.update();
 
-- 
2.43.0


From 2b1e81215f144ad2d40b1a33c24e9340bfd241bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:33 +0000
Subject: [PATCH 63/66] fix: the partition properties tool read out of bounds
 if the partition does not fit the graph

Report an error instead; empty graphs have no blocks.
---
 apps/tools/shm_partition_properties_tool.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/apps/tools/shm_partition_properties_tool.cc b/apps/tools/shm_partition_properties_tool.cc
index d65b2b6..864786e 100644
--- a/apps/tools/shm_partition_properties_tool.cc
+++ b/apps/tools/shm_partition_properties_tool.cc
@@ -74,7 +74,14 @@ int main(int argc, char *argv[]) {
     return 1;
   }
 
-  const BlockID k = *std::max_element(partition.begin(), partition.end()) + 1;
+  if (partition.size() != graph.n()) {
+    LOG_ERROR << "The partition has " << partition.size() << " nodes, but the graph has "
+              << graph.n() << " nodes";
+    return 1;
+  }
+
+  const BlockID k =
+      partition.empty() ? 0 : *std::max_element(partition.begin(), partition.end()) + 1;
   PartitionedGraph p_graph(graph, k, std::move(partition));
 
   LOG << "Number of blocks: " << k;
-- 
2.43.0


From b52a8fd1777e23adbd083f6847225d465643e8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:07 +0000
Subject: [PATCH 64/66] fix: report failed writes of debug dumps

The dumps of graphs and partitions (--d-dump-*) were written through an
ofstream whose state nobody looked at: a full disk left a truncated dump
and exit code 0.
---
 kaminpar-shm/partitioning/debug.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kaminpar-shm/partitioning/debug.cc b/kaminpar-shm/partitioning/debug.cc
index 79a888c..35cd05c 100644
--- a/kaminpar-shm/partitioning/debug.cc
+++ b/kaminpar-shm/partitioning/debug.cc
@@ -69,6 +69,7 @@ void dump_graph_hierarchy(const Graph &graph, const int level, const Context &ct
 
 void dump_graph(const Graph &graph, const std::string &filename) {
   std::ofstream out(filename, std::ios::trunc);
+  out.exceptions(std::ios::failbit | std::ios::badbit); // report failures
   out << graph.n() << " " << graph.m() / 2 << " ";
   if (graph.is_node_weighted()) {
     out << graph.is_node_weighted() << graph.is_edge_weighted();
@@ -91,6 +92,7 @@ void dump_graph(const Graph &graph, const std::string &filename) {
 
     out << "\n";
   }
+  out.close();
 }
 
 void dump_coarsest_partition(const PartitionedGraph &p_graph, const Context &ctx) {
@@ -119,9 +121,11 @@ void dump_partition_hierarchy(
 
 void dump_partition(const PartitionedGraph &p_graph, const std::string &filename) {
   std::ofstream out(filename, std::ios::trunc);
+  out.exceptions(std::ios::failbit | std::ios::badbit); // report failures
   for (const NodeID u : p_graph.nodes()) {
     out << p_graph.block(u) << "\n";
   }
+  out.close();
 }
 
 std::string describe_partition_context(const PartitionContext &p_ctx) {
-- 
2.43.0


From 82755860cf33fd3cfde4265dc745402de4873b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:07 +0000
Subject: [PATCH 65/66] fix: keep the maximum degree and maximum node weight of
 CSR graphs

The sequential constructor left the maximum degree at its default and the
copy constructor from a Graph left the maximum node weight at 1.
---
 kaminpar-shm/datastructures/csr_graph.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/kaminpar-shm/datastructures/csr_graph.cc b/kaminpar-shm/datastructures/csr_graph.cc
index 9417712..13383b1 100644
--- a/kaminpar-shm/datastructures/csr_graph.cc
+++ b/kaminpar-shm/datastructures/csr_graph.cc
@@ -7,6 +7,7 @@
  ******************************************************************************/
 #include "kaminpar-shm/datastructures/csr_graph.h"
 
+#include <algorithm>
 #include <numeric>
 
 #include <tbb/enumerable_thread_specific.h>
@@ -43,6 +44,7 @@ CSRGraph::CSRGraph(const Graph &graph)
     });
 
     _total_node_weight = graph.total_node_weight();
+    _max_node_weight = graph.max_node_weight();
     _total_edge_weight = graph.total_edge_weight();
     _max_degree = graph.max_degree();
     init_degree_buckets();
@@ -112,6 +114,11 @@ CSRGraph::CSRGraph(
         std::accumulate(_edge_weights.begin(), _edge_weights.end(), static_cast<EdgeWeight>(0));
   }
 
+  _max_degree = 0;
+  for (NodeID u = 0; u < n(); ++u) {
+    _max_degree = std::max(_max_degree, degree(u));
+  }
+
   // TODO: Use a sequential routine to initialize degree buckets since work isolation can otherwise
   // be violated. However, this does not currently pose a problem as it is not called in parallel.
   init_degree_buckets();
-- 
2.43.0


From 6f3a3cbe07ef5eaa53a9ff8b5eeefec1e5aeeb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:07 +0000
Subject: [PATCH 66/66] fix: do not truncate the global edge cut to the local
 weight type

The distributed partitioner stored the global edge cut in an EdgeWeight,
which is 32 bit by default: it returned a wrong (negative) cut and jet and
the snapshooter compared wrong cuts once the cut exceeded 2^31.
---
 kaminpar-dist/dkaminpar.cc                  | 2 +-
 kaminpar-dist/refinement/jet/jet_refiner.cc | 8 ++++----
 kaminpar-dist/refinement/snapshooter.cc     | 6 +++---
 kaminpar-dist/refinement/snapshooter.h      | 8 ++++----
 4 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/kaminpar-dist/dkaminpar.cc b/kaminpar-dist/dkaminpar.cc
index a6a710b..93b6511 100644
--- a/kaminpar-dist/dkaminpar.cc
+++ b/kaminpar-dist/dkaminpar.cc
@@ -366,7 +366,7 @@ GlobalEdgeWeight dKaMinPar::compute_partition(const BlockID k, BlockID *partitio
     );
   }
 
-  const EdgeWeight final_cut = metrics::edge_cut(p_graph);
+  const GlobalEdgeWeight final_cut = metrics::edge_cut(p_graph);
 
 #ifdef KAMINPAR_ENABLE_TIMERS
   GLOBAL_TIMER.reset();
diff --git a/kaminpar-dist/refinement/jet/jet_refiner.cc b/kaminpar-dist/refinement/jet/jet_refiner.cc
index 7bc482d..f3f1e53 100644
--- a/kaminpar-dist/refinement/jet/jet_refiner.cc
+++ b/kaminpar-dist/refinement/jet/jet_refiner.cc
@@ -146,8 +146,8 @@ public:
       int cur_fruitless_iteration = 0;
       int cur_iteration = 0;
 
-      const EdgeWeight initial_cut = metrics::edge_cut(_p_graph);
-      EdgeWeight best_cut = initial_cut;
+      const GlobalEdgeWeight initial_cut = metrics::edge_cut(_p_graph);
+      GlobalEdgeWeight best_cut = initial_cut;
 
       do {
         TIMER_BARRIER(_graph.communicator());
@@ -165,7 +165,7 @@ public:
             HEAVY
         );
 
-        const EdgeWeight before_rebalance_cut = IFDBG(metrics::edge_cut(_p_graph));
+        const GlobalEdgeWeight before_rebalance_cut = IFDBG(metrics::edge_cut(_p_graph));
         const double before_rebalance_l1 = IFDBG(metrics::imbalance_l1(_p_graph, _p_ctx));
         DBG0 << "Partition *before* rebalancing: cut=" << before_rebalance_cut
              << ", l1=" << before_rebalance_l1;
@@ -173,7 +173,7 @@ public:
         _balancer->initialize();
         _balancer->refine();
 
-        const EdgeWeight final_cut = metrics::edge_cut(_p_graph);
+        const GlobalEdgeWeight final_cut = metrics::edge_cut(_p_graph);
         const double final_l1 = metrics::imbalance_l1(_p_graph, _p_ctx);
         DBG0 << "Partition *after* rebalancing: cut=" << final_cut << ", l1=" << final_l1;
 
diff --git a/kaminpar-dist/refinement/snapshooter.cc b/kaminpar-dist/refinement/snapshooter.cc
index 39f1588..23b3823 100644
--- a/kaminpar-dist/refinement/snapshooter.cc
+++ b/kaminpar-dist/refinement/snapshooter.cc
@@ -46,7 +46,7 @@ void BestPartitionSnapshooter::rollback(DistributedPartitionedGraph &p_graph) {
 void BestPartitionSnapshooter::update(
     const DistributedPartitionedGraph &p_graph, const PartitionContext &p_ctx
 ) {
-  const EdgeWeight current_cut = metrics::edge_cut(p_graph);
+  const GlobalEdgeWeight current_cut = metrics::edge_cut(p_graph);
   const double current_l1 = metrics::imbalance_l1(p_graph, p_ctx);
   update(p_graph, p_ctx, current_cut, current_l1);
 }
@@ -54,7 +54,7 @@ void BestPartitionSnapshooter::update(
 void BestPartitionSnapshooter::update(
     const DistributedPartitionedGraph &p_graph,
     const PartitionContext &p_ctx,
-    const EdgeWeight cut,
+    const GlobalEdgeWeight cut,
     const double l1
 ) {
   // Accept if the previous best partition is imbalanced and we improved its balance
@@ -94,7 +94,7 @@ void DummyPartitionSnapshooter::update(
 void DummyPartitionSnapshooter::update(
     const DistributedPartitionedGraph & /* p_graph */,
     const PartitionContext & /* p_ctx */,
-    EdgeWeight /* cut */,
+    GlobalEdgeWeight /* cut */,
     double /* l1 */
 ) {}
 
diff --git a/kaminpar-dist/refinement/snapshooter.h b/kaminpar-dist/refinement/snapshooter.h
index aac528b..f241371 100644
--- a/kaminpar-dist/refinement/snapshooter.h
+++ b/kaminpar-dist/refinement/snapshooter.h
@@ -26,7 +26,7 @@ public:
   virtual void update(
       const DistributedPartitionedGraph &p_graph,
       const PartitionContext &p_ctx,
-      EdgeWeight cut,
+      GlobalEdgeWeight cut,
       double l1
   ) = 0;
 
@@ -44,7 +44,7 @@ public:
   void update(
       const DistributedPartitionedGraph &p_graph,
       const PartitionContext &p_ctx,
-      EdgeWeight cut,
+      GlobalEdgeWeight cut,
       double l1
   ) final;
 
@@ -54,7 +54,7 @@ private:
   void copy_partition(const DistributedPartitionedGraph &p_graph, const PartitionContext &p_ctx);
 
   double _best_l1;
-  EdgeWeight _best_cut;
+  GlobalEdgeWeight _best_cut;
   StaticArray<BlockID> _best_partition;
   StaticArray<BlockWeight> _best_block_weights;
   bool _last_is_best;
@@ -69,7 +69,7 @@ public:
   void update(
       const DistributedPartitionedGraph &p_graph,
       const PartitionContext &p_ctx,
-      EdgeWeight cut,
+      GlobalEdgeWeight cut,
       double l1
   ) final;
 
-- 
2.43.0

