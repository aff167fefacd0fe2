// C04: contraction yields the exact quotient graph, projections are exact.
#include "shm_util.h"

#include "kaminpar-shm/coarsening/contraction/cluster_contraction.h"

namespace {
using namespace su;

void run() {
  const int P = static_cast<int>(sim::range(1, 6));
  sim::tbb_configure(P);
  gen::Opts o;
  o.max_n = sim::coin(0.2) ? 200 : 45;
  o.max_m = 5 * o.max_n;
  o.shuffle_neighbors = true;
  const bool large = sim::coin(0.02); // reaches the limits for nodes of large degree
  G g = large ? gen::large_graph(21'800, 24'000) : gen::random_graph(o);
  const bool sorted = sim::coin(0.2);
  if (sorted) g = degree_sorted(g);
  const bool compressed = sim::coin(0.3);
  ContractionCoarseningContext ctx;
  static const std::vector<ContractionAlgorithm> algos = {
      ContractionAlgorithm::BUFFERED, ContractionAlgorithm::BUFFERED_LEGACY, ContractionAlgorithm::UNBUFFERED,
      ContractionAlgorithm::UNBUFFERED_NAIVE};
  static const std::vector<ContractionImplementation> impls = {
      ContractionImplementation::SINGLE_PHASE, ContractionImplementation::TWO_PHASE,
      ContractionImplementation::GROWING_HASH_TABLES};
  ctx.edge_buffer_fill_fraction = 1;
  const bool memory = sim::coin();
  contraction::MemoryContext m_ctx;
  const int levels = large ? 1 : static_cast<int>(sim::range(1, 3));
  sim::note(sim::fmt("P=%d compressed=%d sorted=%d memory=%d levels=%d; %s", P, compressed, sorted, memory, levels,
                     g.describe().c_str()));
  Graph fine = compressed ? compressed_of(g, sorted) : graph_of(g, sorted);
  std::vector<std::unique_ptr<CoarseGraph>> chain;
  const Graph *cur = &fine;
  G model = g;
  for (int level = 0; level < levels; ++level) {
    ctx.algorithm = large && sim::coin() ? ContractionAlgorithm::UNBUFFERED : algos[sim::range(0, 3)];
    ctx.unbuffered_implementation = impls[sim::range(0, 2)];
    ctx.edge_buffer_fill_fraction = sim::coin() ? 1.0 : 0.05 * static_cast<double>(sim::range(1, 19));
    const auto clustering = large ? gen::large_clustering(model) : gen::random_clustering(model);
    if (large) sim::count("reach:large-degree");
    auto coarse = memory ? contract_clustering(*cur, array_of<NodeID>(clustering), ctx, m_ctx)
                         : contract_clustering(*cur, array_of<NodeID>(clustering), ctx);
    if (memory && sim::coin(0.3)) {
      m_ctx.buckets.free();
      m_ctx.buckets_index.free();
      m_ctx.all_buffered_nodes.free();
    }
    const Graph &cg = coarse->get();
    // cluster of every fine node
    std::vector<BlockID> ids(cg.n()), of(model.n, kInvalidBlockID);
    for (std::size_t c = 0; c < ids.size(); ++c) ids[c] = static_cast<BlockID>(c);
    coarse->project_up(ids, of);
    {
      sim::NoPreempt np;
      std::map<NodeID, BlockID> seen;
      std::set<BlockID> used;
      for (std::size_t u = 0; u < model.n; ++u) {
        SIM_CHECK(of[u] < cg.n(), "projection", sim::fmt("node %zu is mapped to coarse node %u of %u", u, of[u], cg.n()));
        auto [it, fresh] = seen.insert({clustering[u], of[u]});
        SIM_CHECK(it->second == of[u], "projection", sim::fmt("cluster %u is mapped to two coarse nodes", clustering[u]));
        if (fresh) SIM_CHECK(used.insert(of[u]).second, "projection", "two clusters are mapped to one coarse node");
      }
      SIM_CHECK(used.size() == cg.n(), "coarse-graph", sim::fmt("%u coarse nodes for %zu clusters", cg.n(), used.size()));
    }
    const G q = quotient(model, cg.n(), of);
    check_same_graph(cg, q, "coarse-graph");
    {
      sim::NoPreempt np;
      i64 heaviest = 0;
      for (auto w : q.vw) heaviest = std::max(heaviest, w);
      SIM_CHECK(q.n == 0 || static_cast<i64>(cg.max_node_weight()) == heaviest, "coarse-graph",
                sim::fmt("heaviest coarse node %ld, expected %ld", (long)cg.max_node_weight(), (long)heaviest));
    }
    // random values up and down
    std::vector<BlockID> up(cg.n()), fine_values(model.n, kInvalidBlockID), down(cg.n(), kInvalidBlockID);
    std::uint64_t value = sim::range(0, 1u << 30);
    for (auto &x : up) x = static_cast<BlockID>(gen::mix(value) % 6);
    coarse->project_up(up, fine_values);
    for (std::size_t u = 0; u < model.n; ++u)
      SIM_CHECK(fine_values[u] == up[of[u]], "projection", sim::fmt("node %zu got %u instead of %u", u, fine_values[u], up[of[u]]));
    coarse->project_down(fine_values, down);
    for (std::size_t c = 0; c < cg.n(); ++c)
      SIM_CHECK(down[c] == up[c], "projection", sim::fmt("coarse node %zu got %u instead of %u", c, down[c], up[c]));
    if (P > 1 && model.m() > 0 && q.n < model.n && q.n > 1) sim::mark_nontrivial();
    model = q;
    chain.push_back(std::move(coarse));
    cur = &chain.back()->get();
  }
}
} // namespace

sim::Check sim::the_check = {"shm_contraction", run, 1'000'000'000, "hang"};
