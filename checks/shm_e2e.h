// Workloads that run the whole shared-memory partitioner.
#pragma once

#include "shm_util.h"

#include <span>

#include "kaminpar-shm/graphutils/parallel_compressed_graph_builder.h"
#include "kaminpar-shm/kaminpar.h"
#include "kaminpar-shm/presets.h"

namespace e2e {
using namespace su;

struct Workload {
  int P = 1, threads = 1;
  std::string preset;
  Context ctx;
  bool compressed = false;
  std::string tweaks;
};

inline Workload random_workload(bool allow_compressed = true, bool vary_threads = true) {
  sim::NoPreempt np;
  Workload w;
  w.P = static_cast<int>(sim::range(1, 6));
  w.threads = w.P;
  if (vary_threads && sim::coin(0.2)) w.threads = static_cast<int>(sim::range(1, w.P));
  static const std::vector<std::string> names = {
      "default", "fast",  "strong", "largek",          "largek-strong", "largek-fast",      "jet",
      "4xjet",   "noref", "vcycle", "restricted-vcycle", "terapart",    "terapart-strong", "terapart-largek"};
  w.preset = names[sim::range(0, allow_compressed ? names.size() - 1 : 10)];
  w.ctx = create_context_by_preset_name(w.preset);
  w.compressed = w.ctx.compression.enabled;
  Context &c = w.ctx;
  // small inputs: scale the size thresholds so that multilevel hierarchies appear
  c.coarsening.contraction_limit = static_cast<NodeID>(sim::range(1, sim::coin() ? 4 : 30));
  if (sim::coin(0.7)) {
    c.initial_partitioning.pool.min_num_repetitions = 1;
    c.initial_partitioning.pool.min_num_non_adaptive_repetitions = 1;
    c.initial_partitioning.pool.max_num_repetitions = static_cast<int>(sim::range(1, 3));
  }
  if (sim::coin(0.3)) c.initial_partitioning.coarsening.contraction_limit = static_cast<NodeID>(sim::range(2, 10));
  auto tweak = [&](double p, const char *name, auto &&f) {
    if (sim::coin(p)) {
      f();
      w.tweaks += std::string(" ") + name;
    }
  };
  using M = InitialPartitioningMode;
  if (c.partitioning.mode == PartitioningMode::DEEP) {
    tweak(0.2, "rb", [&] { c.partitioning.mode = PartitioningMode::RB; });
    if (c.partitioning.mode == PartitioningMode::DEEP)
      tweak(0.2, "kway", [&] { c.partitioning.mode = PartitioningMode::KWAY; });
    tweak(0.5, "ipmode", [&] {
      static const std::vector<M> modes = {M::SEQUENTIAL, M::SYNCHRONOUS_PARALLEL, M::ASYNCHRONOUS_PARALLEL};
      c.partitioning.deep_initial_partitioning_mode = modes[sim::range(0, 2)];
    });
  }
  tweak(0.3, "refine-ext", [&] { c.partitioning.refine_after_extending_partition = true; });
  tweak(0.3, "nolazy", [&] { c.partitioning.use_lazy_subgraph_memory = false; });
  tweak(0.2, "rbtop", [&] { c.partitioning.rb_enable_kway_toplevel_refinement = true; });
  tweak(0.2, "ipload", [&] { c.partitioning.deep_initial_partitioning_load = sim::coin() ? 0.5 : 2.0; });
  tweak(0.3, "natural", [&] { c.node_ordering = NodeOrdering::NATURAL; });
  tweak(0.3, "lpimpl", [&] {
    static const std::vector<LabelPropagationImplementation> v = {
        LabelPropagationImplementation::SINGLE_PHASE, LabelPropagationImplementation::TWO_PHASE,
        LabelPropagationImplementation::GROWING_HASH_TABLES};
    c.coarsening.clustering.lp.impl = v[sim::range(0, 2)];
  });
  tweak(0.3, "twohop", [&] {
    static const std::vector<TwoHopStrategy> v = {TwoHopStrategy::DISABLE, TwoHopStrategy::MATCH,
                                                  TwoHopStrategy::MATCH_THREADWISE, TwoHopStrategy::CLUSTER,
                                                  TwoHopStrategy::CLUSTER_THREADWISE};
    c.coarsening.clustering.lp.two_hop_strategy = v[sim::range(0, 4)];
  });
  tweak(0.3, "isolated", [&] {
    static const std::vector<IsolatedNodesClusteringStrategy> v = {
        IsolatedNodesClusteringStrategy::KEEP, IsolatedNodesClusteringStrategy::MATCH,
        IsolatedNodesClusteringStrategy::CLUSTER, IsolatedNodesClusteringStrategy::MATCH_DURING_TWO_HOP,
        IsolatedNodesClusteringStrategy::CLUSTER_DURING_TWO_HOP};
    c.coarsening.clustering.lp.isolated_nodes_strategy = v[sim::range(0, 4)];
  });
  tweak(0.3, "geometric", [&] {
    c.coarsening.clustering.lp.tie_breaking_strategy = TieBreakingStrategy::GEOMETRIC;
    c.refinement.lp.tie_breaking_strategy = TieBreakingStrategy::GEOMETRIC;
  });
  tweak(0.3, "contraction", [&] {
    static const std::vector<ContractionAlgorithm> v = {
        ContractionAlgorithm::BUFFERED, ContractionAlgorithm::BUFFERED_LEGACY,
        ContractionAlgorithm::UNBUFFERED, ContractionAlgorithm::UNBUFFERED_NAIVE};
    c.coarsening.contraction.algorithm = v[sim::range(0, 3)];
  });
  tweak(0.2, "contrimpl", [&] {
    static const std::vector<ContractionImplementation> v = {ContractionImplementation::SINGLE_PHASE,
                                                             ContractionImplementation::TWO_PHASE,
                                                             ContractionImplementation::GROWING_HASH_TABLES};
    c.coarsening.contraction.unbuffered_implementation = v[sim::range(0, 2)];
  });
  tweak(0.15, "forced", [&] {
    c.coarsening.clustering.forced_kc_level = sim::coin();
    c.coarsening.clustering.forced_pc_level = sim::coin();
  });
  tweak(0.15, "cwl", [&] {
    static const std::vector<ClusterWeightLimit> v = {ClusterWeightLimit::EPSILON_BLOCK_WEIGHT,
                                                      ClusterWeightLimit::BLOCK_WEIGHT, ClusterWeightLimit::ONE};
    c.coarsening.clustering.cluster_weight_limit = v[sim::range(0, 2)];
  });
  tweak(0.15, "jettemp", [&] {
    auto &j = c.refinement.jet;
    j.initial_gain_temp_on_fine_level = j.initial_gain_temp_on_coarse_level = 0.25 * static_cast<double>(sim::range(0, 4));
    j.final_gain_temp_on_fine_level = j.final_gain_temp_on_coarse_level = 0.25 * static_cast<double>(sim::range(0, 4));
  });
  tweak(0.15, "shrink", [&] { c.coarsening.clustering.shrink_factor = 1.5 + 0.5 * static_cast<double>(sim::range(0, 4)); });
  tweak(0.2, "bip", [&] {
    auto &pool = c.initial_partitioning.pool;
    const auto which = sim::range(1, 7);
    pool.enable_bfs_bipartitioner = which & 1;
    pool.enable_ggg_bipartitioner = which & 2;
    pool.enable_random_bipartitioner = which & 4;
    pool.use_adaptive_bipartitioner_selection = sim::coin();
    pool.num_seed_iterations = static_cast<int>(sim::range(1, 3));
    pool.repetition_multiplier = 0.5 * static_cast<double>(sim::range(1, 4));
  });
  tweak(0.2, "ipfm", [&] {
    auto &ip = c.initial_partitioning;
    for (auto *r : {&ip.refinement, &ip.pool.refinement}) {
      r->disabled = sim::coin(0.2);
      r->stopping_rule = sim::coin() ? FMStoppingRule::SIMPLE : FMStoppingRule::ADAPTIVE;
      r->num_fruitless_moves = static_cast<NodeID>(sim::range(1, 20));
      r->num_iterations = static_cast<int>(sim::range(1, 5));
    }
    ip.refine_pool_partition = sim::coin();
    ip.use_adaptive_epsilon = sim::coin(0.8);
  });
  tweak(0.2, "seqlevels", [&] { c.partitioning.min_consecutive_seq_bipartitioning_levels = static_cast<int>(sim::range(0, 3)); });
  // the limit for the cluster weights of so small graphs usually rules out every cluster of two nodes
  tweak(0.6, "cwm", [&] {
    c.coarsening.clustering.cluster_weight_multiplier = static_cast<double>(sim::range(2, sim::coin() ? 8 : 60));
  });
  tweak(0.15, "fewseeds", [&] { c.refinement.kway_fm.num_seed_nodes = static_cast<NodeID>(sim::range(1, 3)); });
  return w;
}

// Recursive bisection is only offered for powers of two (the constructor rejects other k).
inline BlockID supported_k(const Workload &w, BlockID k) {
  while (w.ctx.partitioning.mode == PartitioningMode::RB && (k & (k - 1)) != 0) --k;
  return k;
}

inline void reseed(int s) { KaMinPar::reseed(s); }

struct Arrays {
  std::vector<EdgeID> xadj;
  std::vector<NodeID> adj;
  std::vector<NodeWeight> vw;
  std::vector<EdgeWeight> ew;
  explicit Arrays(const G &g) {
    sim::NoPreempt np;
    xadj.assign(g.xadj.begin(), g.xadj.end());
    adj.assign(g.adj.begin(), g.adj.end());
    if (g.has_vw) vw.assign(g.vw.begin(), g.vw.end());
    if (g.has_ew) ew.assign(g.ew.begin(), g.ew.end());
  }
};

inline void load(KaMinPar &kmp, const G &g, bool compressed, Arrays &a) {
  if (compressed) {
    const auto csr = csr_of(g);
    kmp.set_graph(Graph(std::make_unique<CompressedGraph>(parallel_compress(*csr))));
  } else {
    kmp.copy_graph(a.xadj, a.adj, a.vw, a.ew);
  }
}

// Validity of a returned partition; returns the recomputed cut.
inline void check_partition(const G &g, const std::vector<BlockID> &part, BlockID k, i64 reported) {
  sim::NoPreempt np;
  for (std::size_t u = 0; u < g.n; ++u)
    SIM_CHECK(part[u] < k, "invalid-block", sim::fmt("node %zu is in block %u, k = %u", u, part[u], k));
  const i64 cut = g.cut(part);
  SIM_CHECK(cut == reported, "wrong-cut", sim::fmt("reported cut %ld, actual cut %ld", (long)reported, (long)cut));
}
} // namespace e2e
