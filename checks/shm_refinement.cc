// C06: refiners keep partitions valid, block weights exact, balance and (where promised) the cut.
#include "shm_util.h"

#include "kaminpar-shm/factories.h"
#include "kaminpar-shm/metrics.h"
#include "kaminpar-shm/presets.h"
#include "kaminpar-shm/refinement/refiner.h"

namespace {
using namespace su;

struct Before {
  std::vector<BlockID> part;
  std::vector<i64> w;
  i64 cut;
};

Before snapshot(const G &g, const PartitionedGraph &pg) {
  sim::NoPreempt np;
  Before b;
  for (std::size_t u = 0; u < g.n; ++u) b.part.push_back(pg.block(u));
  b.w = g.block_weights(b.part, pg.k());
  b.cut = g.cut(b.part);
  return b;
}

void run() {
  const int P = static_cast<int>(sim::range(1, 6));
  sim::tbb_configure(P);
  gen::Opts o;
  o.allow_empty = false;
  o.max_n = sim::coin(0.2) ? 120 : 40;
  o.max_m = 4 * o.max_n;
  o.shuffle_neighbors = true;
  if (sim::coin(0.1)) o.max_ew = 1 << 20;
  G g = gen::random_graph(o);
  const bool sorted = sim::coin(0.3);
  if (sorted) g = degree_sorted(g);
  const bool compressed = sim::coin(0.25);

  Context ctx = create_context_by_preset_name("default");
  ctx.parallel.num_threads = P;
  static const std::vector<RefinementAlgorithm> algos = {
      RefinementAlgorithm::LABEL_PROPAGATION, RefinementAlgorithm::GREEDY_BALANCER, RefinementAlgorithm::KWAY_FM,
      RefinementAlgorithm::JET};
  const int chain = sim::coin(0.25) ? static_cast<int>(sim::range(2, 4)) : 1;
  ctx.refinement.algorithms.clear();
  std::string d;
  for (int i = 0; i < chain; ++i) {
    const int a = static_cast<int>(sim::range(0, 3));
    ctx.refinement.algorithms.push_back(algos[a]);
    d += "LBFJ"[a];
  }
  auto &lp = ctx.refinement.lp;
  static const std::vector<LabelPropagationImplementation> impl = {LabelPropagationImplementation::SINGLE_PHASE,
                                                                   LabelPropagationImplementation::TWO_PHASE,
                                                                   LabelPropagationImplementation::GROWING_HASH_TABLES};
  lp.impl = sim::pick(impl);
  lp.num_iterations = sim::range(1, 5);
  if (sim::coin(0.3)) lp.tie_breaking_strategy = TieBreakingStrategy::UNIFORM;
  bool lp_limited = false;
  if (sim::coin(0.2)) {
    lp.large_degree_threshold = static_cast<NodeID>(sim::range(2, 8));
  }
  if (sim::coin(0.2)) {
    lp.max_num_neighbors = static_cast<NodeID>(sim::range(1, 8));
    lp_limited = true;
  }
  auto &fm = ctx.refinement.kway_fm;
  fm.num_seed_nodes = static_cast<NodeID>(sim::range(1, 10));
  fm.alpha = sim::coin(0.3) ? 100.0 : 1.0;
  fm.num_iterations = static_cast<int>(sim::range(1, 4));
  fm.unlock_locally_moved_nodes = sim::coin(0.7);
  fm.unlock_seed_nodes = sim::coin(0.7);
  fm.use_exact_abortion_threshold = sim::coin(0.3);
  if (sim::coin(0.3)) fm.abortion_threshold = 1.0;
  fm.gain_cache_strategy = sim::coin() ? GainCacheStrategy::SPARSE : GainCacheStrategy::COMPACT_HASHING;
  if (sim::coin(0.3)) fm.constant_high_degree_threshold = sim::range(0, 6);
  if (sim::coin(0.3)) fm.k_based_high_degree_threshold = 0.5 * static_cast<double>(sim::range(0, 3));
  fm.minimal_parallelism = sim::coin(0.5) ? std::numeric_limits<int>::max() : static_cast<int>(sim::range(1, 3));
  auto &jet = ctx.refinement.jet;
  jet.num_iterations = static_cast<int>(sim::range(1, 4));
  jet.num_fruitless_iterations = static_cast<int>(sim::range(1, 3));
  jet.num_rounds_on_coarse_level = static_cast<int>(sim::range(1, 3));
  jet.num_rounds_on_fine_level = static_cast<int>(sim::range(1, 2));

  const BlockID k = static_cast<BlockID>(sim::range(2, sim::coin(0.2) ? 20 : 7));
  const bool explicit_w = sim::coin(0.3);
  const double eps = sim::pick(std::vector<double>{0.03, 0.0, 0.1, 0.5, 2.0});
  sim::note(sim::fmt("P=%d refiners=%s k=%u compressed=%d sorted=%d eps=%.2f%s; %s", P, d.c_str(), k, compressed, sorted,
                     eps, explicit_w ? " explicit" : "", g.describe().c_str()));

  Graph graph = compressed ? compressed_of(g, sorted) : graph_of(g, sorted);
  const i64 need = g.total_vw();
  if (explicit_w) {
    std::vector<BlockWeight> w(k);
    i64 sum = 0;
    for (auto &x : w) sum += x = static_cast<BlockWeight>(sim::range(1, 1 + 2 * need / k));
    while (sum < need) {
      w[sim::range(0, k - 1)] += static_cast<BlockWeight>(1 + need / k);
      sum += 1 + need / k;
    }
    ctx.partition.setup(graph, w);
  } else {
    ctx.partition.setup(graph, k, eps);
  }
  // Pretending to be on a coarser or finer level.
  if (sim::coin(0.2)) ctx.partition.n += 10;
  const bool unit = !g.has_vw;

  auto refiner = factory::create_refiner(ctx);
  const int uses = static_cast<int>(sim::range(1, 2));
  const auto maxw = [&](BlockID b) { return static_cast<i64>(ctx.partition.max_block_weight(b)); };
  std::vector<std::uint32_t> start = gen::random_partition(g, k);
  if (unit && sim::coin(0.5)) {
    // a feasible start
    sim::NoPreempt np;
    std::vector<i64> w(k, 0);
    for (auto &b : start) {
      for (BlockID i = 0; i < k && w[b] + 1 > maxw(b); ++i) b = (b + 1) % k;
      ++w[b];
    }
  }
  PartitionedGraph pg = pgraph_of<PartitionedGraph>(graph, k, start);
  bool improved = false;
  for (int use = 0; use < uses; ++use) {
    const Before b = snapshot(g, pg);
    refiner->initialize(pg);
    const bool ret = refiner->refine(pg, ctx.partition);
    sim::NoPreempt np;
    std::vector<BlockID> part;
    for (std::size_t u = 0; u < g.n; ++u) {
      part.push_back(pg.block(u));
      SIM_CHECK(part[u] < k, "invalid-block", sim::fmt("node %zu is in block %u of %u", u, part[u], k));
    }
    const auto w = g.block_weights(part, k);
    const i64 cut = g.cut(part);
    bool feasible = true, was_feasible = true, overloads = false;
    for (BlockID i = 0; i < k; ++i) {
      SIM_CHECK(pg.block_weight(i) == w[i], "block-weight",
                sim::fmt("block %u has weight %ld, the graph says %ld", i, (long)w[i], (long)pg.block_weight(i)));
      feasible = feasible && w[i] <= maxw(i);
      was_feasible = was_feasible && b.w[i] <= maxw(i);
      // a block may not become heavier than its maximum and than it was
      overloads = overloads || (w[i] > maxw(i) && w[i] > b.w[i]);
    }
    const auto only = [&](std::vector<RefinementAlgorithm> set) {
      for (auto a : ctx.refinement.algorithms)
        if (std::find(set.begin(), set.end(), a) == set.end()) return false;
      return true;
    };
    using RA = RefinementAlgorithm;
    const char *who = d.c_str();
    if (only({RA::LABEL_PROPAGATION, RA::GREEDY_BALANCER}) || (P == 1 && only({RA::LABEL_PROPAGATION, RA::GREEDY_BALANCER, RA::KWAY_FM})))
      SIM_CHECK(!overloads, "overload", sim::fmt("%s overloaded a block", who));
    if (only({RA::JET}) || (P == 1 && !lp_limited && only({RA::LABEL_PROPAGATION, RA::KWAY_FM, RA::JET})))
      SIM_CHECK(cut <= b.cut, "cut-worse", sim::fmt("%s increased the cut from %ld to %ld", who, (long)b.cut, (long)cut));
    if (unit && was_feasible && (P == 1 || only({RA::LABEL_PROPAGATION, RA::GREEDY_BALANCER, RA::JET})))
      SIM_CHECK(feasible, "balance-lost", sim::fmt("%s returned an infeasible partition", who));
    if (ctx.refinement.algorithms.size() == 1 && only({RA::GREEDY_BALANCER})) {
      SIM_CHECK(ret == feasible, "wrong-answer", sim::fmt("the balancer returned %d, feasible is %d", ret, feasible));
      if (unit) SIM_CHECK(feasible, "not-balanced", "the balancer left a unit-weight partition imbalanced");
      if (was_feasible) SIM_CHECK(part == b.part, "needless-move", "the balancer changed a balanced partition");
      for (std::size_t u = 0; u < g.n; ++u)
        SIM_CHECK(part[u] == b.part[u] || b.w[b.part[u]] > maxw(b.part[u]), "needless-move",
                  sim::fmt("node %zu left block %u which was not overloaded", u, b.part[u]));
    }
    improved = improved || cut != b.cut;
    if (sim::coin(0.3) && use + 1 < uses) {
      const auto p = gen::random_partition(g, k);
      pg = pgraph_of<PartitionedGraph>(graph, k, p);
    }
  }
  if (P > 1 && improved) sim::mark_nontrivial();
}
} // namespace

sim::Check sim::the_check = {"shm_refinement", run, 100'000'000, "hang"};
