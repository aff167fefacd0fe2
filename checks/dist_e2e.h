// Workloads that run the whole distributed partitioner.
#pragma once
#define DIST_UTIL_GRAPH
#include "dist.h"
#include "dist_util.h"

#include <iostream>

#include "kaminpar-dist/dkaminpar.h"

#include "kaminpar-dist/context.h"
#include "kaminpar-dist/presets.h"

namespace dist_e2e {
using namespace dist_util;

// Plain description: every process builds its own context from it.
struct Plan {
  std::string preset;
  std::vector<std::pair<int, int>> tweaks; // tweak, value
  std::string text;

  int get(int tweak, int otherwise) const {
    for (auto &[t, v] : tweaks) {
      if (t == tweak) return v;
    }
    return otherwise;
  }
};

enum Tweak {
  T_CLIMIT, T_K, T_CHUNKS, T_MODE, T_ORDER, T_SPLIT, T_SINGLE, T_GALGO, T_LOCAL, T_MERGE, T_IGNORE_GHOSTS, T_KEEP_GHOSTS,
  T_SYNC, T_ENFORCE, T_CHEAP, T_CYCLIC, T_LEGACY, T_CNODE, T_MIGRATE, T_PERFECT, T_IP, T_REFINE, T_REFINE_COARSEST,
  T_LP_PROB, T_CLP_STRAT, T_CLP_MISC, T_NB, T_CB, T_JET, T_HIGH_DEGREE, T_MAXNB, T_CWL, T_EPS, T_OUTPUT, T_CWM, T_CLP_BLACKLIST, T_HEM_BLACKLIST, T_NB_DEGREES,
  T_NB_BASE, T_CB_BUCKETS, T_CB_FRACTION, T_CB_STALL, T_JET_FACTOR, T_GLEVELS, T_COUNT
};

inline void apply(Context &c, int t, int v) {
  using CA = ClusteringAlgorithm;
  using RA = RefinementAlgorithm;
  switch (t) {
  case T_CLIMIT: c.coarsening.contraction_limit = v; break;
  case T_K: c.partition.K = v; break;
  case T_CHUNKS:
    for (ChunksContext *ch : {&c.coarsening.global_lp.chunks, &c.coarsening.hem.chunks, &c.refinement.lp.chunks,
                              &c.refinement.colored_lp.coloring_chunks}) {
      ch->total_num_chunks = 4 * v;
      ch->min_num_chunks = v;
      ch->scale_chunks_with_threads = v == 3;
    }
    break;
  case T_MODE: c.mode = v ? PartitioningMode::KWAY : PartitioningMode::DEEP; break;
  case T_ORDER: c.rearrange_by = v == 0 ? GraphOrdering::NATURAL : v == 1 ? GraphOrdering::DEGREE_BUCKETS : GraphOrdering::COLORING; break;
  case T_SPLIT: c.enable_pe_splitting = v; break;
  case T_SINGLE: c.simulate_singlethread = v; break;
  case T_GALGO:
    c.coarsening.global_clustering_algorithm = std::vector<CA>{CA::GLOBAL_LP, CA::GLOBAL_HEM, CA::GLOBAL_HEM_LP, CA::GLOBAL_NOOP}[v];
    break;
  case T_LOCAL:
    c.coarsening.local_clustering_algorithm = CA::LOCAL_LP;
    c.coarsening.max_local_clustering_levels = v;
    break;
  case T_MERGE: c.coarsening.global_lp.merge_singleton_clusters = v & 1; c.coarsening.global_lp.merge_nonadjacent_clusters_threshold = v & 2 ? 1.0 : 0.0; break;
  case T_IGNORE_GHOSTS: c.coarsening.local_lp.ignore_ghost_nodes = v; break;
  case T_KEEP_GHOSTS: c.coarsening.local_lp.keep_ghost_clusters = v; break;
  case T_SYNC: c.coarsening.global_lp.sync_cluster_weights = v; break;
  case T_ENFORCE: c.coarsening.global_lp.enforce_cluster_weights = v; break;
  case T_CHEAP: c.coarsening.global_lp.cheap_toplevel = v; break;
  case T_CYCLIC: c.coarsening.global_lp.prevent_cyclic_moves = v; break;
  case T_LEGACY: c.coarsening.global_lp.enforce_legacy_weight = v; break;
  case T_CNODE: c.coarsening.max_cnode_imbalance = v == 0 ? 1.0 : v == 1 ? 1.5 : std::numeric_limits<double>::max(); break;
  case T_MIGRATE: c.coarsening.migrate_cnode_prefix = v; break;
  case T_PERFECT: c.coarsening.force_perfect_cnode_balance = v; break;
  case T_IP: c.initial_partitioning.algorithm = v ? InitialPartitioningAlgorithm::RANDOM : InitialPartitioningAlgorithm::KAMINPAR; break;
  case T_REFINE: {
    const RA nb = RA::HYBRID_NODE_BALANCER, cb = RA::HYBRID_CLUSTER_BALANCER;
    c.refinement.algorithms = std::vector<std::vector<RA>>{
        {nb, RA::BATCHED_LP_REFINER, nb},
        {nb, RA::COLORED_LP_REFINER, nb},
        {cb, RA::BATCHED_LP_REFINER, cb},
        {nb, RA::JET_REFINER},
        {nb, RA::COLORED_LP_REFINER, cb, RA::JET_REFINER, nb},
        {cb, RA::JET_REFINER, cb},
        {RA::BATCHED_LP_REFINER, RA::NOOP, nb},
        {nb}}[v];
    break;
  }
  case T_REFINE_COARSEST: c.refinement.refine_coarsest_level = v; break;
  case T_LP_PROB: c.refinement.lp.ignore_probabilities = v & 1; c.refinement.lp.num_move_attempts = 1 + v / 2; break;
  case T_CLP_STRAT:
    c.refinement.colored_lp.move_execution_strategy = static_cast<LabelPropagationMoveExecutionStrategy>(v);
    break;
  case T_CLP_MISC:
    c.refinement.colored_lp.track_local_block_weights = v & 1;
    c.refinement.colored_lp.use_active_set = v & 2;
    c.refinement.colored_lp.sort_by_rel_gain = v & 4;
    c.refinement.colored_lp.num_move_execution_iterations = v & 8 ? 2 : 1;
    break;
  case T_NB: {
    auto &b = c.refinement.node_balancer;
    b.enable_sequential_balancing = v != 1;
    b.enable_parallel_balancing = v != 2;
    b.par_threshold = v == 3 ? 0.0 : 0.1;
    b.par_num_dicing_attempts = v == 4 ? 2 : 0;
    b.par_accept_imbalanced_moves = v != 5;
    b.par_update_pq_gains = v == 6;
    b.par_partial_buckets = v != 7;
    b.par_enable_positive_gain_buckets = v != 8;
    b.seq_num_nodes_per_block = v % 3 == 0 ? 1 : 5;
    break;
  }
  case T_CB: {
    auto &b = c.refinement.cluster_balancer;
    b.enable_parallel_balancing = v & 1;
    b.parallel_threshold = v & 2 ? 0.0 : 0.1;
    b.cluster_strategy = static_cast<ClusterStrategy>((v >> 2) % 3);
    b.cluster_size_strategy = static_cast<ClusterSizeStrategy>((v >> 4) % 5);
    b.cluster_rebuild_interval = (v >> 7) & 1;
    b.par_accept_imbalanced = !((v >> 8) & 1);
    b.par_num_dicing_attempts = ((v >> 9) & 1) * 2;
    break;
  }
  case T_JET: {
    auto &j = c.refinement.jet;
    j.num_coarse_rounds = 1 + (v & 1);
    j.num_fine_rounds = 1 + ((v >> 1) & 1);
    j.dynamic_negative_gain_factor = (v >> 2) & 1;
    j.num_iterations = ((v >> 3) & 1) * 3;
    j.num_fruitless_iterations = 2;
    j.balancing_algorithm = (v >> 4) & 1 ? RefinementAlgorithm::HYBRID_CLUSTER_BALANCER : RefinementAlgorithm::HYBRID_NODE_BALANCER;
    break;
  }
  case T_HIGH_DEGREE:
    c.coarsening.global_lp.active_high_degree_threshold = v;
    c.coarsening.global_lp.passive_high_degree_threshold = v;
    c.refinement.lp.active_high_degree_threshold = v;
    break;
  case T_MAXNB: c.coarsening.global_lp.max_num_neighbors = v; break;
  case T_CWL: c.coarsening.cluster_weight_limit = static_cast<shm::ClusterWeightLimit>(v); break;
  case T_CLP_BLACKLIST:
    c.refinement.colored_lp.small_color_blacklist = 0.1 * (v & 7);
    c.refinement.colored_lp.only_blacklist_input_level = v & 8;
    c.refinement.colored_lp.num_probabilistic_move_attempts = 1 + (v >> 4);
    break;
  case T_HEM_BLACKLIST:
    c.coarsening.hem.small_color_blacklist = 0.1 * (v & 7);
    c.coarsening.hem.only_blacklist_input_level = v & 8;
    break;
  case T_NB_DEGREES: {
    auto &b = c.refinement.node_balancer;
    b.par_high_degree_update_interval = 1 + (v & 1);
    b.par_high_degree_update_thresold = (v >> 1) & 7;
    break;
  }
  case T_NB_BASE: c.refinement.node_balancer.par_gain_bucket_base = 1.0 + 0.1 * v; break;
  case T_CB_BUCKETS:
    c.refinement.cluster_balancer.par_use_positive_gain_buckets = v & 1;
    c.refinement.cluster_balancer.par_gain_bucket_factor = 1.1 + 0.1 * (v >> 1);
    break;
  case T_CB_FRACTION:
    c.refinement.cluster_balancer.par_initial_rebalance_fraction = 0.1 * v;
    c.refinement.cluster_balancer.par_rebalance_fraction_increase = v & 1 ? 0.5 : 0.1;
    break;
  case T_CB_STALL:
    c.refinement.cluster_balancer.switch_to_sequential_after_stallmate = v & 1;
    c.refinement.cluster_balancer.switch_to_singleton_after_stallmate = v & 2;
    c.refinement.cluster_balancer.cluster_size_multiplier = v & 4 ? 0.3 : v & 8 ? 2.0 : 1.0;
    break;
  case T_JET_FACTOR: {
    auto &j = c.refinement.jet;
    j.coarse_negative_gain_factor = j.initial_negative_gain_factor = 0.25 * (v & 3);
    j.fine_negative_gain_factor = j.final_negative_gain_factor = 0.25 * (v >> 2);
    break;
  }
  case T_GLEVELS: c.coarsening.max_global_clustering_levels = v; break;
  case T_CWM: c.coarsening.cluster_weight_multiplier = v; break;
  case T_EPS: c.partition.epsilon = 0.001 * v; break;
  }
}

inline void draw_tweaks(Plan &p) {
  auto tweak = [&](double pr, int t, std::uint64_t lo, std::uint64_t hi) {
    if (sim::coin(pr)) {
      p.tweaks.push_back({t, static_cast<int>(sim::range(lo, hi))});
      p.text += sim::fmt(" t%d=%d", t, p.tweaks.back().second);
    }
  };
  // small inputs: scale thresholds so that hierarchies appear
  tweak(1.0, T_CLIMIT, 1, sim::coin() ? 4 : 20);
  tweak(1.0, T_CHUNKS, 1, 3);
  tweak(0.3, T_K, 1, 1);
  if (!p.tweaks.empty() && p.tweaks.back().first == T_K) {
    p.tweaks.back().second = 2 << sim::range(0, 2);
  }
  tweak(0.15, T_MODE, 1, 1);
  tweak(0.4, T_ORDER, 0, 2);
  tweak(0.2, T_SPLIT, 0, 0);
  tweak(0.2, T_SINGLE, 0, 0);
  tweak(0.4, T_GALGO, 0, 3);
  tweak(0.2, T_LOCAL, 1, 3);
  tweak(0.2, T_MERGE, 0, 3);
  tweak(0.1, T_SYNC, 0, 0);
  tweak(0.1, T_ENFORCE, 0, 0);
  tweak(0.1, T_CHEAP, 1, 1);
  tweak(0.2, T_CYCLIC, 1, 1);
  tweak(0.2, T_LEGACY, 1, 1);
  tweak(0.3, T_CNODE, 0, 2);
  tweak(0.2, T_MIGRATE, 0, 0);
  tweak(0.2, T_PERFECT, 1, 1);
  tweak(0.15, T_IP, 1, 1);
  tweak(0.6, T_REFINE, 0, 7);
  tweak(0.1, T_REFINE_COARSEST, 1, 1);
  tweak(0.2, T_LP_PROB, 0, 3);
  tweak(0.3, T_CLP_STRAT, 0, 2);
  tweak(0.3, T_CLP_MISC, 0, 15);
  tweak(0.3, T_NB, 0, 8);
  tweak(0.3, T_CB, 0, 1023);
  tweak(0.3, T_JET, 0, 31);
  tweak(0.1, T_HIGH_DEGREE, 1, 10);
  tweak(0.1, T_MAXNB, 1, 6);
  tweak(0.1, T_CWL, 0, 3);
  tweak(0.3, T_EPS, 1, 400);
  tweak(0.2, T_OUTPUT, 1, 3);
  tweak(0.15, T_CLP_BLACKLIST, 1, 31);
  tweak(0.1, T_HEM_BLACKLIST, 1, 15);
  tweak(0.1, T_NB_DEGREES, 0, 15);
  tweak(0.1, T_NB_BASE, 1, 20);
  tweak(0.15, T_CB_BUCKETS, 0, 31);
  tweak(0.1, T_CB_FRACTION, 1, 10);
  tweak(0.15, T_CB_STALL, 0, 15);
  tweak(0.15, T_JET_FACTOR, 0, 15);
  tweak(0.1, T_GLEVELS, 0, 3);
  // the limit for the cluster weights of so small graphs usually rules out every cluster of two nodes
  tweak(0.6, T_CWM, 2, sim::coin() ? 8 : 60);
}

inline Context make_context(const Plan &p) {
  Context c = create_context_by_preset_name(p.preset);
  c.initial_partitioning.kaminpar.initial_partitioning.pool.min_num_repetitions = 1;
  c.initial_partitioning.kaminpar.initial_partitioning.pool.min_num_non_adaptive_repetitions = 1;
  c.initial_partitioning.kaminpar.initial_partitioning.pool.max_num_repetitions = 2;
  for (auto &[t, v] : p.tweaks) {
    apply(c, t, v);
  }
  if (c.refinement.colored_lp.move_execution_strategy == LabelPropagationMoveExecutionStrategy::LOCAL_MOVES) {
    c.refinement.colored_lp.track_local_block_weights = true; // required (assertion)
  }
  return c;
}

struct W {
  Base b;
  G g;
  std::vector<std::size_t> dist;
  Plan plan;
  unsigned k = 2;
  int seed = 0;
  bool compressed = false; // the caller hands over a compressed graph
  int repeat = 1; // calls of compute_partition() of the same object
  std::vector<unsigned> part;
  std::vector<i64> cut;
};

// Multiplies the weights of the graph such that their totals fit the local weight type on every process (32 bits), but usually
// not across processes.
inline bool scale_weights(G &g, const std::vector<std::size_t> &dist, bool with_nodes) {
  i64 node_total = 1, edge_total = 1;
  for (std::size_t i = 0; i + 1 < dist.size(); ++i) {
    i64 nodes = 0, edges = 0;
    for (std::size_t u = dist[i]; u < dist[i + 1]; ++u) {
      nodes += g.vw[u];
      for (std::size_t e = g.xadj[u]; e < g.xadj[u + 1]; ++e) edges += g.ew[e];
    }
    node_total = std::max(node_total, nodes);
    edge_total = std::max(edge_total, edges);
  }
  const i64 limit = std::numeric_limits<std::int32_t>::max();
  const bool nodes = with_nodes && sim::coin(0.4), edges = !nodes || sim::coin();
  if (nodes) {
    for (auto &x : g.vw) x *= limit / node_total;
    g.has_vw = true;
  }
  if (edges) {
    for (auto &x : g.ew) x *= limit / edge_total;
    g.has_ew = true;
  }
  return true;
}

inline W *draw(int max_ranks, int max_threads, std::size_t max_n, double p_vw, bool with_known_findings = false) {
  auto *w = new W();
  draw_base(w->b, max_ranks, max_threads);
  // all processes use the same parameters (the number of chunks of the label propagation depends on the threads)
  for (auto &t : w->b.threads) t = w->b.threads[0];
  // several steps of deep multilevel partitioning: the number of blocks grows on several levels of the hierarchy
  const bool deep_steps = sim::coin(0.2);
  if (deep_steps) {
    max_n = std::max<std::size_t>(max_n, 80);
  }
  gen::Opts o;
  o.max_n = max_n;
  o.max_m = 3 * max_n;
  o.p_vw = p_vw;
  w->g = gen::random_graph(o);
  w->dist = draw_distribution(w->g.n, w->b.P());
  static const std::vector<std::string> names = {"default", "strong", "jet", "europar23-fast"};
  w->plan.preset = sim::pick(names);
  draw_tweaks(w->plan);
  if ((w->b.P() & (w->b.P() - 1)) != 0) {
    // BEST_MOVES (the default) is documented (assertion) to require a power of two of processes
    const int best = static_cast<int>(LabelPropagationMoveExecutionStrategy::BEST_MOVES);
    bool set = false;
    for (auto &[t, v] : w->plan.tweaks) {
      if (t == T_CLP_STRAT) {
        set = true;
        v = v == best ? static_cast<int>(LabelPropagationMoveExecutionStrategy::LOCAL_MOVES) : v;
      }
    }
    if (!set) {
      w->plan.tweaks.emplace_back(T_CLP_STRAT, static_cast<int>(LabelPropagationMoveExecutionStrategy::PROBABILISTIC));
      w->plan.text += " colored-lp-not-best-moves";
    }
  }
  if (w->b.P() > 5 && w->plan.get(T_JET, -1) < 0) {
    // the default is hundreds of iterations: keep runs with many processes short
    w->plan.tweaks.emplace_back(T_JET, static_cast<int>(sim::range(0, 31)));
    w->plan.text += sim::fmt(" t%d=%d", static_cast<int>(T_JET), w->plan.tweaks.back().second);
  }
  w->k = static_cast<unsigned>(sim::range(1, 8));
  if (sim::coin(0.1)) {
    w->k = static_cast<unsigned>(sim::range(1, w->g.n + 3));
  }
  if (deep_steps) {
    std::erase_if(w->plan.tweaks, [](auto &t) { return t.first == T_K || t.first == T_CLIMIT || t.first == T_MODE; });
    const int steps[] = {sim::coin(0.7) ? 2 : 4, static_cast<int>(sim::range(1, 2))};
    w->plan.tweaks.emplace_back(T_K, steps[0]);
    w->plan.tweaks.emplace_back(T_CLIMIT, steps[1]);
    w->k = 4u << sim::range(0, 3);
    w->plan.text += sim::fmt(" deep-steps K=%d climit=%d", steps[0], steps[1]);
  }
  // known finding: numbers of blocks above K that are not powers of two
  std::string tag;
  if (w->plan.get(T_MODE, 0) == 0 && w->k > static_cast<unsigned>(w->plan.get(T_K, 128)) && (w->k & (w->k - 1)) != 0) {
    if (!with_known_findings || sim::coin(0.97)) {
      w->k = 1u << (31 - __builtin_clz(w->k));
    } else {
      tag = "case:k-above-K-not-a-power-of-two ";
    }
  }
  bool heavy = sim::coin(0.06);
  if (heavy) {
    heavy = scale_weights(w->g, w->dist, p_vw > 0);
    // coarse weights would exceed the local weight type: partition without coarsening
    for (auto &[t, v] : w->plan.tweaks) {
      v = t == T_CLIMIT ? 1'000'000 : v;
    }
  }
  w->seed = static_cast<int>(sim::range(0, 1000));
  w->part.assign(w->g.n, ~0u);
  w->cut.assign(w->b.P(), -1);
  std::string d;
  for (auto x : w->dist) {
    d += " " + std::to_string(x);
  }
  sim::note(sim::fmt("%s%s%s%s; %d of %d processes, threads %d; distribution%s; k=%u; %s", tag.c_str(), heavy ? "heavy weights " : "", w->plan.preset.c_str(), w->plan.text.c_str(),
                     w->b.P(), w->b.n, w->b.threads[0], d.c_str(), w->k, w->g.describe().c_str()));
  if (w->b.P() > 1 && w->g.n > 4 && w->g.m() > 0 && w->k > 1) {
    sim::mark_nontrivial();
  }
  return w;
}

inline void run_rank(W &w, int r) {
  sim::tbb_configure(w.b.threads[r]);
  MPI_Comm comm = make_comm(w.b, r);
  const int i = w.b.index(r);
  if (i < 0) {
    return;
  }
  const G &g = w.g;
  const std::size_t from = w.dist[i], to = w.dist[i + 1];
  std::vector<GlobalNodeID> vtxdist(w.dist.begin(), w.dist.end());
  std::vector<GlobalEdgeID> xadj;
  for (std::size_t u = from; u <= to; ++u) {
    xadj.push_back(g.xadj[u] - g.xadj[from]);
  }
  std::vector<GlobalNodeID> adj(g.adj.begin() + g.xadj[from], g.adj.begin() + g.xadj[to]);
  std::vector<GlobalNodeWeight> vw;
  std::vector<GlobalEdgeWeight> ew;
  if (g.has_vw) {
    vw.assign(g.vw.begin() + from, g.vw.begin() + to);
  }
  if (g.has_ew) {
    ew.assign(g.ew.begin() + g.xadj[from], g.ew.begin() + g.xadj[to]);
  }
  dKaMinPar::reseed(w.seed);
  Context ctx = make_context(w.plan);
  ctx.compression.enabled = w.compressed;
  dKaMinPar p(comm, w.b.threads[r], ctx);
  std::cout.setstate(std::ios::badbit); // discard
  p.set_output_level(OutputLevel::QUIET);
  for (auto &[t, v] : w.plan.tweaks) {
    if (t == T_OUTPUT) {
      p.set_output_level(static_cast<OutputLevel>(v));
    }
  }
  if (w.compressed) {
    p.import_graph(build_compressed_graph(g, w.dist, comm));
  } else {
    p.import_graph(vtxdist, xadj, adj, vw, ew);
  }
  std::vector<BlockID> part(to - from, kInvalidBlockID);
  for (int again = 1; again < w.repeat; ++again) {
    p.compute_partition(w.k, part.data());
    std::fill(part.begin(), part.end(), kInvalidBlockID);
  }
  const i64 cut = p.compute_partition(w.k, part.data());
  std::copy(part.begin(), part.end(), w.part.begin() + from);
  w.cut[i] = cut;
  sim::mpi::meet(w.b.P()); // communication of one process may not depend on objects of another that is gone
}

inline i64 check_result(const W &w) {
  for (std::size_t u = 0; u < w.g.n; ++u) {
    SIM_CHECK(w.part[u] < w.k, "invalid-block", sim::fmt("node %zu is in block %u, k = %u", u, w.part[u], w.k));
  }
  const i64 cut = w.g.cut(w.part);
  for (int i = 0; i < w.b.P(); ++i) {
    SIM_CHECK(w.cut[i] == cut, "wrong-cut", sim::fmt("process %d reports cut %ld, actual cut %ld", i, (long)w.cut[i], (long)cut));
  }
  return cut;
}
} // namespace dist_e2e
