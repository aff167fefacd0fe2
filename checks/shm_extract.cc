// C10: block extraction and node reordering preserve the graph.
#include "shm_util.h"

#include <numeric>

#include <tbb/enumerable_thread_specific.h>
#include <tbb/parallel_for.h>

#include "kaminpar-shm/graphutils/permutator.h"
#include "kaminpar-shm/graphutils/subgraph_extractor.h"
#include "kaminpar-shm/partitioning/partition_utils.h"

namespace {
using namespace su;

// Subgraph of `g` induced by the nodes in `order` (in this order).
G induced(const G &g, const std::vector<std::size_t> &order) {
  sim::NoPreempt np;
  std::vector<std::size_t> pos(g.n, SIZE_MAX);
  for (std::size_t i = 0; i < order.size(); ++i) pos[order[i]] = i;
  G r;
  r.n = order.size();
  r.has_vw = g.has_vw, r.has_ew = g.has_ew;
  for (const std::size_t u : order) {
    r.vw.push_back(g.vw[u]);
    for (std::size_t e = g.xadj[u]; e < g.xadj[u + 1]; ++e)
      if (pos[g.adj[e]] != SIZE_MAX) r.adj.push_back(pos[g.adj[e]]), r.ew.push_back(g.ew[e]);
    r.xadj.push_back(r.adj.size());
  }
  return r;
}

// Node order of every block according to the mapping; the mapping must be a bijection per block.
template <typename Mapping, typename Part>
std::vector<std::vector<std::size_t>> orders_of(const G &g, BlockID k, const Part &part, const Mapping &mapping) {
  sim::NoPreempt np;
  std::vector<std::vector<std::size_t>> order(k);
  std::vector<std::size_t> size(k, 0);
  for (std::size_t u = 0; u < g.n; ++u) ++size[part[u]];
  for (BlockID b = 0; b < k; ++b) order[b].assign(size[b], SIZE_MAX);
  for (std::size_t u = 0; u < g.n; ++u) {
    auto &o = order[part[u]];
    SIM_CHECK(mapping[u] < o.size() && o[mapping[u]] == SIZE_MAX, "wrong-mapping",
              sim::fmt("node %zu of block %u is mapped to position %lu of %zu, which is %s", u, part[u], (unsigned long)mapping[u], o.size(),
                       mapping[u] < o.size() ? "taken" : "outside the block"));
    o[mapping[u]] = u;
  }
  return order;
}

// Bisects a block subgraph recursively inside the shared subgraph memory.
void bisect(const Graph &graph, const G &g, BlockID final_k, graph::SubgraphMemoryStartPosition pos, graph::SubgraphMemory &mem,
            tbb::enumerable_thread_specific<graph::TemporarySubgraphMemory> &tmp_ets, const std::vector<std::uint32_t> &bits,
            const std::vector<std::size_t> &ids, int depth) {
  if (final_k < 2 || depth > 5) return;
  std::vector<BlockID> part(g.n);
  for (std::size_t u = 0; u < g.n; ++u) part[u] = (bits[ids[u]] >> depth) & 1;
  StaticArray<BlockID> arr(g.n, static_array::noinit);
  for (std::size_t u = 0; u < g.n; ++u) arr[u] = part[u];
  PartitionedGraph pg(PartitionedGraph::seq{}, graph, 2, std::move(arr));
  const std::array<BlockID, 2> fk = {final_k - final_k / 2, final_k / 2};
  auto res = graph::extract_subgraphs_sequential(pg, fk, pos, mem, tmp_ets.local());
  std::array<std::vector<std::size_t>, 2> order, sub_ids;
  for (std::size_t u = 0; u < g.n; ++u) order[part[u]].push_back(u), sub_ids[part[u]].push_back(ids[u]);
  std::array<G, 2> models = {induced(g, order[0]), induced(g, order[1])};
  for (int i : {0, 1}) check_same_graph(res.subgraphs[i], models[i], "wrong-sequential-subgraph");
  for (int i : {0, 1}) {
    bisect(res.subgraphs[i], models[i], fk[i], res.positions[i], mem, tmp_ets, bits, sub_ids[i], depth + 1);
    if (i == 0) check_same_graph(res.subgraphs[1], models[1], "clobbered-subgraph");
  }
}

void check_copied(const PartitionedGraph &pg, const G &g, const std::vector<BlockID> &part, BlockID k, BlockID k_prime, BlockID input_k,
                  const StaticArray<NodeID> &mapping, const ScalableVector<StaticArray<BlockID>> &sub) {
  sim::NoPreempt np;
  SIM_CHECK(pg.k() == k_prime && pg.n() == g.n, "wrong-copy", "size of the copied partition");
  std::vector<BlockID> first(k + 1, 0);
  for (BlockID b = 0; b < k; ++b) first[b + 1] = first[b] + (k_prime == input_k ? partitioning::compute_final_k(b, k, input_k) : k_prime / k);
  for (std::size_t u = 0; u < g.n; ++u) {
    const BlockID want = first[part[u]] + sub[part[u]][mapping[u]];
    SIM_CHECK(pg.block(u) == want, "wrong-copy", sim::fmt("node %zu of block %u is in block %u, expected %u", u, part[u], pg.block(u), want));
  }
  std::vector<i64> w(k_prime, 0);
  for (std::size_t u = 0; u < g.n; ++u) w[pg.block(u)] += g.vw[u];
  for (BlockID b = 0; b < k_prime; ++b)
    SIM_CHECK(static_cast<i64>(pg.block_weight(b)) == w[b], "wrong-block-weight", sim::fmt("block %u weighs %ld, expected %ld", b, (long)pg.block_weight(b), (long)w[b]));
}

void extraction(int P, const G &g, bool compressed, bool lazy) {
  BlockID k = static_cast<BlockID>(sim::range(1, 9)), input_k = k;
  if (sim::coin(0.7)) {
    k = 1u << sim::range(0, 3);
    input_k = k * static_cast<BlockID>(sim::range(1, 4)) + static_cast<BlockID>(sim::range(0, k - 1));
  }
  BlockID k_prime = input_k;
  if ((k & (k - 1)) == 0 && sim::coin(0.3))
    while (2 * k <= input_k && k_prime != 2 * k) k_prime = 2 * k;
  sim::note(sim::fmt("%s P=%d k=%u k'=%u input_k=%u compressed=%d; %s", lazy ? "lazy" : "extract", P, k, k_prime, input_k, compressed, g.describe().c_str()));
  Graph graph = compressed ? compressed_of(g) : graph_of(g);
  const auto raw = gen::random_partition(g, k);
  const std::vector<BlockID> part(raw.begin(), raw.end());
  PartitionedGraph pg = pgraph_of<PartitionedGraph>(graph, k, raw);
  ScalableVector<StaticArray<BlockID>> sub;
  std::vector<std::uint32_t> bits(g.n);
  for (auto &b : bits) b = static_cast<std::uint32_t>(sim::range(0, 63));
  const auto make_sub = [&](const std::vector<std::vector<std::size_t>> &order) {
    for (BlockID b = 0; b < k; ++b) {
      const BlockID fk = k_prime == input_k ? partitioning::compute_final_k(b, k, input_k) : k_prime / k;
      StaticArray<BlockID> s(order[b].size());
      for (auto &x : s) x = static_cast<BlockID>(sim::range(0, fk - 1));
      sub.push_back(std::move(s));
    }
  };
  if (!lazy) {
    graph::SubgraphMemory mem;
    if (sim::coin(0.3)) { // memory that was used before
      gen::Opts o;
      const G h = gen::random_graph(o);
      Graph hg = graph_of(h);
      PartitionedGraph hp = pgraph_of<PartitionedGraph>(hg, 2, gen::random_partition(h, 2));
      mem.resize(h.n, 2, h.m(), h.has_vw, h.has_ew);
      (void)graph::extract_subgraphs(hp, 2, mem);
    }
    mem.resize(g.n, input_k, g.m(), graph.is_node_weighted(), graph.is_edge_weighted());
    auto res = graph::extract_subgraphs(pg, input_k, mem);
    SIM_CHECK(res.subgraphs.size() == k, "wrong-count", "number of subgraphs");
    const auto order = orders_of(g, k, part, res.node_mapping);
    std::vector<G> models;
    for (BlockID b = 0; b < k; ++b) models.push_back(induced(g, order[b]));
    for (BlockID b = 0; b < k; ++b) check_same_graph(res.subgraphs[b], models[b], "wrong-subgraph");
    make_sub(order);
    if ((k & (k - 1)) == 0) {
      tbb::enumerable_thread_specific<graph::TemporarySubgraphMemory> tmp;
      const int rounds = 1;
      for (int r = 0; r < rounds; ++r)
        tbb::parallel_for(tbb::blocked_range<BlockID>(0, k, 1), [&](const auto &range) {
          for (BlockID b = range.begin(); b != range.end(); ++b)
            bisect(res.subgraphs[b], models[b], partitioning::compute_final_k(b, k, input_k), res.positions[b], mem, tmp, bits, order[b], 0);
        });
    }
    PartitionedGraph np = graph::copy_subgraph_partitions(std::move(pg), sub, k_prime, input_k, res.node_mapping);
    check_copied(np, g, part, k, k_prime, input_k, res.node_mapping, sub);
  } else {
    auto pre = graph::lazy_extract_subgraphs_preprocessing(pg);
    const auto order = orders_of(g, k, part, pre.mapping);
    std::vector<std::size_t> first(k + 1, 0);
    for (BlockID b = 0; b < k; ++b) first[b + 1] = first[b] + order[b].size();
    for (BlockID b = 0; b <= k; ++b)
      SIM_CHECK(pre.block_nodes_offset[b] == first[b], "wrong-offset", sim::fmt("block %u starts at %u, expected %zu", b, pre.block_nodes_offset[b], first[b]));
    std::vector<G> models;
    for (BlockID b = 0; b < k; ++b) {
      models.push_back(induced(g, order[b]));
      SIM_CHECK(pre.block_num_edges[b] == models[b].m(), "wrong-edge-count", sim::fmt("block %u has %lu edges, expected %zu", b, (unsigned long)pre.block_num_edges[b], models[b].m()));
      for (std::size_t i = 0; i < order[b].size(); ++i)
        SIM_CHECK(pre.block_nodes[first[b] + i] == order[b][i], "wrong-block-nodes", sim::fmt("entry %zu of block %u is node %u, expected %zu", i, b, pre.block_nodes[first[b] + i], order[b][i]));
    }
    tbb::enumerable_thread_specific<graph::SubgraphMemory> mem_ets;
    tbb::parallel_for(tbb::blocked_range<BlockID>(0, k, 1), [&](const auto &range) {
      for (BlockID b = range.begin(); b != range.end(); ++b) {
        auto &mem = mem_ets.local();
        const NodeID bn = order[b].size();
        if (mem.nodes.size() < bn + 1) mem.nodes.resize(bn + 1, static_array::noinit);
        if (mem.edges.size() < models[b].m()) mem.edges.resize(models[b].m(), static_array::noinit);
        if (graph.is_node_weighted() && mem.node_weights.size() < bn) mem.node_weights.resize(bn, static_array::noinit);
        if (graph.is_edge_weighted() && mem.edge_weights.size() < models[b].m()) mem.edge_weights.resize(models[b].m(), static_array::noinit);
        const StaticArray<NodeID> nodes(bn, pre.block_nodes.data() + first[b]);
        const Graph s = graph::extract_subgraph(pg, b, nodes, pre.mapping, mem);
        check_same_graph(s, models[b], "wrong-subgraph");
      }
    });
    make_sub(order);
    PartitionedGraph np = graph::copy_subgraph_partitions(std::move(pg), sub, k_prime, input_k, pre.mapping);
    check_copied(np, g, part, k, k_prime, input_k, pre.mapping, sub);
  }
  if (P > 1 && k > 1 && g.m() > 0) sim::mark_nontrivial();
}

template <typename Map> std::vector<std::size_t> inverse_of(std::size_t n, Map &&old_to_new, const char *what) {
  sim::NoPreempt np;
  std::vector<std::size_t> order(n, SIZE_MAX);
  for (std::size_t u = 0; u < n; ++u) {
    const std::size_t p = old_to_new(u);
    SIM_CHECK(p < n && order[p] == SIZE_MAX, "wrong-permutation", sim::fmt("%s: node %zu moves to position %zu (of %zu, %s)", what, u, p, n, p < n ? "taken" : "invalid"));
    order[p] = u;
  }
  return order;
}

std::size_t bucket_of(std::size_t d) {
  std::size_t b = 0;
  while (d > 0) d >>= 1, ++b;
  return b;
}

void reordering(int P, const G &g) {
  sim::note(sim::fmt("reorder P=%d; %s", P, g.describe().c_str()));
  auto csr = csr_of(g);
  const bool vw = csr->is_node_weighted(), ew = csr->is_edge_weighted();
  (void)vw, (void)ew;
  Graph graph = graph::rearrange_by_degree_buckets(*csr);
  const auto order = inverse_of(g.n, [&](std::size_t u) { return graph.map_original_node(u); }, "rearrange_by_degree_buckets");
  const G r = induced(g, order);
  SIM_CHECK(graph.sorted(), "wrong-order", "the rearranged graph is not marked as sorted");
  check_same_graph(graph, r, "wrong-reordered-graph");
  std::size_t isolated = 0, last = 0;
  bool tail = false;
  for (std::size_t i = 0; i < g.n; ++i) {
    const std::size_t d = r.deg(i);
    if (d == 0) tail = true, ++isolated;
    else {
      SIM_CHECK(!tail, "isolated-not-last", sim::fmt("node %zu has neighbors but follows an isolated node", i));
      SIM_CHECK(bucket_of(d) >= last, "wrong-order", sim::fmt("node %zu of degree %zu follows a node of bucket %zu", i, d, last));
      last = bucket_of(d);
    }
  }
  SIM_CHECK(graph::count_isolated_nodes(graph) == isolated, "wrong-isolated-count", "count_isolated_nodes()");
  std::vector<std::size_t> rest(g.n - isolated);
  std::iota(rest.begin(), rest.end(), 0);
  const G core = induced(r, rest);
  for (int round = 0; round < 2; ++round) {
    graph.remove_isolated_nodes(static_cast<NodeID>(isolated));
    check_same_graph(graph, core, "wrong-core-graph");
    std::size_t covered = 0;
    for (std::size_t b = 0; b < graph.number_of_buckets(); ++b) {
      covered += graph.bucket_size(b);
      for (NodeID u = graph.first_node_in_bucket(b); u < graph.first_invalid_node_in_bucket(b); ++u)
        SIM_CHECK(u < core.n && bucket_of(core.deg(u)) == b, "wrong-bucket", sim::fmt("node %u is in bucket %zu", u, b));
    }
    SIM_CHECK(covered == core.n, "wrong-bucket", sim::fmt("the buckets cover %zu of %zu nodes", covered, core.n));
    // partition the core, put the isolated nodes back
    const BlockID k = static_cast<BlockID>(sim::range(1, 5));
    const auto raw = gen::random_partition(core, k);
    PartitionedGraph pg = pgraph_of<PartitionedGraph>(graph, k, raw);
    const NodeID back = graph.integrate_isolated_nodes();
    SIM_CHECK(back == isolated, "wrong-isolated-count", sim::fmt("%u isolated nodes return, %zu were removed", back, isolated));
    check_same_graph(graph, r, "wrong-reintegrated-graph");
    PartitionContext p_ctx;
    std::vector<BlockWeight> limits;
    for (BlockID b = 0; b < k; ++b) limits.push_back(static_cast<BlockWeight>(1 + g.total_vw() / k + static_cast<i64>(sim::range(0, 5))));
    p_ctx.setup(graph, std::move(limits));
    PartitionedGraph full = graph::assign_isolated_nodes(std::move(pg), back, p_ctx);
    SIM_CHECK(full.n() == g.n && full.k() == k, "wrong-assignment", "size of the extended partition");
    std::vector<i64> w(k, 0);
    for (std::size_t u = 0; u < g.n; ++u) {
      SIM_CHECK(full.block(u) < k, "wrong-assignment", sim::fmt("node %zu is in block %u", u, full.block(u)));
      if (u < core.n) SIM_CHECK(full.block(u) == raw[u], "wrong-assignment", sim::fmt("node %zu changed its block", u));
      w[full.block(u)] += r.vw[u];
    }
    for (BlockID b = 0; b < k; ++b) SIM_CHECK(static_cast<i64>(full.block_weight(b)) == w[b], "wrong-block-weight", sim::fmt("block %u", b));
  }
  if (P > 1 && g.m() > 0) sim::mark_nontrivial();
}

void permutation(int P, const G &g) {
  sim::note(sim::fmt("permute P=%d; %s", P, g.describe().c_str()));
  const std::size_t nb = sim::range(1, 6);
  std::vector<NodeID> bucket(g.n);
  for (auto &b : bucket) b = static_cast<NodeID>(sim::range(0, nb - 1));
  const auto csr = csr_of(g);
  const int which = static_cast<int>(sim::range(0, 2));
  auto perm = which == 0 ? graph::compute_node_permutation_by_generic_buckets(static_cast<NodeID>(g.n), nb, [&](const NodeID u) { return bucket[u]; })
                         : graph::compute_node_permutation_by_degree_buckets(csr->raw_nodes(), which == 1);
  const auto order = inverse_of(g.n, [&](std::size_t u) { return perm.old_to_new[u]; }, "compute_node_permutation");
  for (std::size_t i = 0; i < g.n; ++i)
    SIM_CHECK(perm.new_to_old[i] == order[i], "wrong-permutation", sim::fmt("the two permutations are not inverse at %zu", i));
  const auto key = [&](std::size_t u) -> std::size_t {
    if (which == 0) return bucket[u];
    const std::size_t d = g.deg(u);
    return d == 0 && which == 1 ? 1000 : bucket_of(d);
  };
  for (std::size_t i = 1; i < g.n; ++i) {
    SIM_CHECK(key(order[i - 1]) <= key(order[i]), "wrong-order", sim::fmt("bucket order violated at position %zu", i));
    if (key(order[i - 1]) == key(order[i])) SIM_CHECK(order[i - 1] < order[i], "unstable-order", sim::fmt("order within a bucket changed at position %zu", i));
  }
  if (P > 1 && g.m() > 0) sim::mark_nontrivial();
}

void edge_order(int P, const G &g) {
  sim::note(sim::fmt("edges P=%d; %s", P, g.describe().c_str()));
  const auto csr = csr_of(g);
  graph::reorder_edges_by_compression(*csr);
  check_same_graph(*csr, g, "wrong-edge-order");
  if (P > 1 && g.m() > 0) sim::mark_nontrivial();
}

void run() {
  const int P = static_cast<int>(sim::range(1, 6));
  sim::tbb_configure(P);
  gen::Opts o;
  o.max_n = sim::coin(0.1) ? 200 : 40;
  o.max_m = 4 * o.max_n;
  o.shuffle_neighbors = true;
  if (sim::coin(0.2)) o.max_vw = o.max_ew = 1 << 12;
  o.shuffle_ids = sim::coin();
  const G g = gen::random_graph(o);
  switch (sim::range(0, 7)) {
  case 0:
  case 1:
  case 2:
    return extraction(P, g, sim::coin(0.2), false);
  case 3:
    return extraction(P, g, sim::coin(0.2), true);
  case 4:
  case 5:
    return reordering(P, g);
  case 6:
    return permutation(P, g);
  default:
    return edge_order(P, g);
  }
}
} // namespace

sim::Check sim::the_check = {"shm_extract", run, 100'000'000, "hang"};
