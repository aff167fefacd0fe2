// C05: label propagation clusterings respect weight limits; coarsening keeps weight and shrinks.
#include "shm_util.h"

#include "kaminpar-shm/coarsening/cluster_coarsener.h"
#include "kaminpar-shm/coarsening/clustering/lp_clusterer.h"
#include "kaminpar-shm/presets.h"

namespace {
using namespace su;

Context random_ctx(std::string &d) {
  Context ctx = create_context_by_preset_name("default");
  auto &lp = ctx.coarsening.clustering.lp;
  static const std::vector<LabelPropagationImplementation> impl = {LabelPropagationImplementation::SINGLE_PHASE,
                                                                   LabelPropagationImplementation::TWO_PHASE,
                                                                   LabelPropagationImplementation::GROWING_HASH_TABLES};
  static const std::vector<TwoHopStrategy> hop = {TwoHopStrategy::DISABLE, TwoHopStrategy::MATCH,
                                                  TwoHopStrategy::MATCH_THREADWISE, TwoHopStrategy::CLUSTER,
                                                  TwoHopStrategy::CLUSTER_THREADWISE};
  static const std::vector<IsolatedNodesClusteringStrategy> iso = {
      IsolatedNodesClusteringStrategy::KEEP, IsolatedNodesClusteringStrategy::MATCH,
      IsolatedNodesClusteringStrategy::CLUSTER, IsolatedNodesClusteringStrategy::MATCH_DURING_TWO_HOP,
      IsolatedNodesClusteringStrategy::CLUSTER_DURING_TWO_HOP};
  const int a = sim::range(0, 2), b = sim::range(0, 4), c = sim::range(0, 4);
  lp.impl = impl[a];
  lp.two_hop_strategy = hop[b];
  lp.isolated_nodes_strategy = iso[c];
  lp.num_iterations = sim::range(1, 5);
  if (sim::coin(0.3)) lp.two_hop_threshold = 1.0; // always
  if (sim::coin(0.3)) lp.tie_breaking_strategy = TieBreakingStrategy::GEOMETRIC;
  if (sim::coin(0.2)) lp.large_degree_threshold = static_cast<NodeID>(sim::range(2, 8));
  if (sim::coin(0.2)) lp.max_num_neighbors = static_cast<NodeID>(sim::range(1, 8));
  lp.relabel_before_second_phase = sim::coin(0.3);
  d = sim::fmt("impl=%d hop=%d iso=%d it=%zu thr=%.1f relabel=%d ldt=%u", a, b, c, (std::size_t)lp.num_iterations,
               lp.two_hop_threshold, lp.relabel_before_second_phase, lp.large_degree_threshold);
  return ctx;
}

void check_clustering(const G &g, const StaticArray<NodeID> &clustering, i64 max_weight, int P,
                      const std::vector<NodeID> &communities) {
  sim::NoPreempt np;
  std::map<NodeID, i64> weight;
  std::map<NodeID, std::size_t> size;
  std::map<NodeID, NodeID> community;
  for (std::size_t u = 0; u < g.n; ++u) {
    const NodeID c = clustering[u];
    SIM_CHECK(c < g.n, "invalid-cluster", sim::fmt("node %zu is in cluster %u of %zu", u, c, g.n));
    weight[c] += g.vw[u];
    ++size[c];
    if (!communities.empty()) {
      auto [it, fresh] = community.insert({c, communities[u]});
      SIM_CHECK(it->second == communities[u], "mixed-cluster", sim::fmt("cluster %u spans two communities", c));
    }
  }
  // a join is checked before it is carried out: every other worker may have one join under way
  const i64 slack = static_cast<i64>(P - 1) * std::max(g.max_vw(), max_weight / 2);
  for (auto [c, w] : weight)
    SIM_CHECK(size[c] == 1 || w <= max_weight + slack, "heavy-cluster",
              sim::fmt("cluster %u of %zu nodes has weight %ld, the maximum is %ld (%d workers)", c, size[c], (long)w,
                       (long)max_weight, P));
}

void clusterer() {
  const int P = sim::coin(0.3) ? 1 : static_cast<int>(sim::range(2, 6));
  sim::tbb_configure(P);
  std::string d;
  Context ctx = random_ctx(d);
  LPClustering lp(ctx.coarsening);
  const bool large = sim::coin(0.002); // a second phase for nodes of large degree
  const int rounds = large ? 1 : static_cast<int>(sim::range(1, 3));
  if (large) sim::count("reach:large-degree");
  std::string what;
  std::size_t max_n = 0; // kept memory is only reused for smaller graphs, as during coarsening
  for (int r = 0; r < rounds; ++r) {
    gen::Opts o;
    o.max_n = max_n > 0 ? max_n : sim::coin(0.2) ? 300 : 50;
    o.max_m = 4 * o.max_n;
    o.max_vw = 6;
    o.allow_empty = false;
    G g = large ? gen::large_graph(10'050, 12'000) : gen::random_graph(o);
    const bool sorted = sim::coin(0.4);
    if (sorted) g = degree_sorted(g);
    const bool compressed = r == 0 && sim::coin(0.3); // coarse graphs are never compressed
    const Graph graph = compressed ? compressed_of(g, sorted) : graph_of(g, sorted);
    const i64 max_weight = static_cast<i64>(sim::range(0, sim::coin() ? 10 : 40));
    const NodeID desired = sim::coin() ? 0 : static_cast<NodeID>(sim::range(0, g.n));
    std::vector<NodeID> communities;
    const auto hop = ctx.coarsening.clustering.lp.two_hop_strategy;
    const auto iso = ctx.coarsening.clustering.lp.isolated_nodes_strategy;
    // only label propagation itself knows about communities; their numbering is fixed per level
    if (r == 0 && rounds == 1 && hop == TwoHopStrategy::DISABLE && iso == IsolatedNodesClusteringStrategy::KEEP &&
        ctx.coarsening.clustering.lp.impl != LabelPropagationImplementation::TWO_PHASE && sim::coin()) {
      std::uint64_t s = sim::range(0, 1u << 30);
      for (std::size_t u = 0; u < g.n; ++u) communities.push_back(static_cast<NodeID>(gen::mix(s) % 3));
      lp.set_communities(communities);
    }
    what += sim::fmt("[%s max=%ld desired=%u comp=%d sorted=%d com=%d]", g.describe().c_str(), (long)max_weight, desired,
                     compressed, sorted, !communities.empty());
    sim::note(sim::fmt("P=%d %s %s", P, d.c_str(), what.c_str()));
    lp.set_max_cluster_weight(static_cast<NodeWeight>(max_weight));
    lp.set_desired_cluster_count(desired);
    StaticArray<NodeID> clustering(g.n, static_array::noinit);
    const bool free_memory = sim::coin();
    lp.compute_clustering(clustering, graph, free_memory);
    max_n = free_memory ? 0 : g.n;
    check_clustering(g, clustering, max_weight, P, communities);
    if (P > 1 && g.m() > 0 && max_weight > 1) sim::mark_nontrivial();
  }
}

void coarsener() {
  const int P = static_cast<int>(sim::range(1, 6));
  sim::tbb_configure(P);
  std::string d;
  Context ctx = random_ctx(d);
  gen::Opts o;
  o.max_n = sim::coin(0.2) ? 300 : 80;
  o.max_m = 4 * o.max_n;
  o.allow_empty = false;
  G g = gen::random_graph(o);
  const bool sorted = sim::coin(0.4);
  if (sorted) g = degree_sorted(g);
  const bool compressed = sim::coin(0.3);
  const Graph graph = compressed ? compressed_of(g, sorted) : graph_of(g, sorted);
  ctx.parallel.num_threads = P;
  ctx.coarsening.contraction_limit = static_cast<NodeID>(sim::range(1, 8));
  ctx.coarsening.clustering.max_mem_free_coarsening_level = sim::range(0, 3);
  ctx.coarsening.convergence_threshold = 0.01 * static_cast<double>(sim::range(0, 20));
  ctx.coarsening.clustering.forced_kc_level = sim::coin(0.3);
  ctx.coarsening.clustering.forced_pc_level = sim::coin(0.3);
  const BlockID k = static_cast<BlockID>(sim::range(2, 8));
  ctx.partition.setup(graph, k, 0.03 + 0.1 * static_cast<double>(sim::range(0, 3)));
  sim::note(sim::fmt("coarsener P=%d %s k=%u comp=%d sorted=%d; %s", P, d.c_str(), k, compressed, sorted,
                     g.describe().c_str()));
  std::vector<G> models{g};
  {
    ClusteringCoarsener c(ctx, ctx.partition);
    c.initialize(&graph);
    std::vector<NodeID> communities;
    for (int level = 0; level < 12; ++level) {
      const bool more = c.coarsen();
      const Graph &cg = c.current();
      SIM_CHECK(c.level() == models.size(), "hierarchy", "wrong number of levels");
      SIM_CHECK(cg.n() <= models.back().n, "hierarchy", "coarsening increased the number of nodes");
      models.push_back(model_of(cg));
      const G &m = models.back();
      SIM_CHECK(m.total_vw() == g.total_vw() && static_cast<i64>(cg.total_node_weight()) == g.total_vw(), "hierarchy",
                sim::fmt("level %d has weight %ld (reported %ld) instead of %ld", level, (long)m.total_vw(),
                         (long)cg.total_node_weight(), (long)g.total_vw()));
      SIM_CHECK(m.total_ew() <= models[models.size() - 2].total_ew(), "hierarchy", "edge weight increased");
      if (!more) break;
    }
    if (sim::coin(0.3)) c.release_allocated_memory();
    // project a random partition all the way up: weights and cut never change
    const auto part = gen::random_partition(models.back(), k);
    const i64 cut = models.back().cut(part);
    const auto bw = models.back().block_weights(part, k);
    PartitionedGraph p(c.current(), k, array_of<BlockID>(part));
    while (c.level() > 0) {
      p = c.uncoarsen(std::move(p));
      models.pop_back();
      SIM_CHECK(p.n() == models.back().n && &p.graph() == &c.current(), "hierarchy", "uncoarsened to the wrong level");
      std::vector<BlockID> cur(p.n());
      for (NodeID u = 0; u < p.n(); ++u) {
        cur[u] = p.block(u);
        SIM_CHECK(cur[u] < k, "projection", sim::fmt("block %u of %u after uncoarsening", cur[u], k));
      }
      SIM_CHECK(models.back().cut(cur) == cut, "projection", "uncoarsening changed the cut");
      const auto bw2 = models.back().block_weights(cur, k);
      for (BlockID b = 0; b < k; ++b)
        SIM_CHECK(bw2[b] == bw[b] && p.block_weight(b) == bw[b], "projection",
                  sim::fmt("weight of block %u after uncoarsening: %ld (reported %ld) instead of %ld", b, (long)bw2[b],
                           (long)p.block_weight(b), (long)bw[b]));
    }
  }
  if (P > 1 && g.m() > 0) sim::mark_nontrivial();
}

void run() {
  if (sim::coin(0.7))
    clusterer();
  else
    coarsener();
}
} // namespace

sim::Check sim::the_check = {"shm_clustering", run, 1'000'000'000, "hang"};
