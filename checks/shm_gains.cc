// C08: gain caches stay exact under concurrent moves; delta caches answer for their overlay.
#include "shm_util.h"

#include <tbb/parallel_for.h>

#include "kaminpar-shm/datastructures/delta_partitioned_graph.h"
#include "kaminpar-shm/presets.h"
#include "kaminpar-shm/refinement/gains/compact_hashing_gain_cache.h"
#include "kaminpar-shm/refinement/gains/dense_gain_cache.h"
#include "kaminpar-shm/refinement/gains/hashing_gain_cache.h"
#include "kaminpar-shm/refinement/gains/on_the_fly_gain_cache.h"
#include "kaminpar-shm/refinement/gains/sparse_gain_cache.h"

namespace {
using namespace su;

// conn[u][b] by the definition
std::vector<std::vector<i64>> conns(const G &g, const std::vector<BlockID> &part, BlockID k) {
  std::vector<std::vector<i64>> c(g.n, std::vector<i64>(k, 0));
  for (std::size_t u = 0; u < g.n; ++u)
    for (std::size_t e = g.xadj[u]; e < g.xadj[u + 1]; ++e) c[u][part[g.adj[e]]] += g.ew[e];
  return c;
}

template <typename Cache>
void check_cache(const G &g, Cache &cache, const std::vector<BlockID> &part, BlockID k, const std::vector<NodeID> &nodes,
                 const char *what, bool nonadjacent, bool exact, bool border) {
  const auto c = [&] {
    sim::NoPreempt np;
    return conns(g, part, k);
  }();
  for (const NodeID u : nodes) {
    const BlockID from = part[u];
    for (BlockID b = 0; b < k; ++b) {
      const i64 got = cache.conn(u, b);
      SIM_CHECK(got == c[u][b], "wrong-conn", sim::fmt("%s: conn(%u, %u) = %ld, the graph says %ld", what, u, b, (long)got, (long)c[u][b]));
      if (b != from) {
        const i64 gain = cache.gain(u, from, b);
        SIM_CHECK(gain == c[u][b] - c[u][from], "wrong-gain",
                  sim::fmt("%s: gain(%u, %u -> %u) = %ld, the graph says %ld", what, u, from, b, (long)gain, (long)(c[u][b] - c[u][from])));
        const BlockID b2 = (b + 1) % k;
        if (b2 != from && b2 != b) {
          const auto [g1, g2] = cache.gain(u, from, {b, b2});
          SIM_CHECK(g1 == c[u][b] - c[u][from] && g2 == c[u][b2] - c[u][from], "wrong-gain",
                    sim::fmt("%s: pair gain of node %u to %u and %u is wrong", what, u, b, b2));
        }
      }
    }
    std::vector<char> seen(k, 0);
    cache.gains(u, from, [&](const BlockID to, auto &&compute) {
      SIM_CHECK(to < k && to != from, "wrong-enumeration", sim::fmt("%s: gains(%u) enumerates block %u", what, u, to));
      const i64 v = compute();
      const i64 expect = c[u][to] - (exact ? c[u][from] : 0);
      SIM_CHECK(v == expect, "wrong-enumeration", sim::fmt("%s: gains(%u) reports %ld for block %u, the graph says %ld", what, u, (long)v, to, (long)expect));
      seen[to] = 1;
    });
    for (BlockID b = 0; b < k; ++b)
      if (b != from && (c[u][b] > 0 || nonadjacent))
        SIM_CHECK(seen[b], "wrong-enumeration", sim::fmt("%s: gains(%u) misses block %u with connection %ld", what, u, b, (long)c[u][b]));
    if constexpr (requires { cache.is_border_node(u, from); }) {
      if (border) {
        i64 total = 0;
        for (auto x : c[u]) total += x;
        SIM_CHECK(cache.is_border_node(u, from) == (total != c[u][from]), "wrong-border", sim::fmt("%s: is_border_node(%u) is wrong", what, u));
      }
    }
  }
}

template <typename GraphT, typename Cache> void scenario(int P, const Context &ctx, const char *name, bool compressed) {
  std::unique_ptr<Cache> cache;
  const int uses = static_cast<int>(sim::range(1, 2));
  std::size_t prev_n = 0;
  BlockID prev_k = 0;
  for (int use = 0; use < uses; ++use) {
    gen::Opts o;
    o.max_n = sim::coin(0.2) ? 60 : 20;
    o.max_m = 5 * o.max_n;
    o.allow_empty = false;
    o.shuffle_neighbors = true;
    if (sim::coin(0.2)) o.max_ew = 1 << 16;
    G g = gen::random_graph(o);
    const bool sorted = sim::coin(0.6);
    if (sorted) g = degree_sorted(g);
    BlockID k = static_cast<BlockID>(sim::range(2, sim::coin(0.3) ? 33 : 9));
    if (use > 0) k = std::min(k, prev_k);
    prev_k = k;
    sim::note(sim::fmt("%s P=%d k=%u compressed=%d sorted=%d use=%d; %s", name, P, k, compressed, sorted, use, g.describe().c_str()));
    Graph graph = compressed ? compressed_of(g, sorted) : graph_of(g, sorted);
    PartitionedGraph pg = pgraph_of<PartitionedGraph>(graph, k, gen::random_partition(g, k));
    const GraphT &concrete = const_cast<const Graph &>(graph).concretize<GraphT>();
    if (!cache) cache = std::make_unique<Cache>(ctx, sim::coin() ? g.n : g.n + 7, k);
    cache->initialize(concrete, pg);
    std::vector<BlockID> part(g.n);
    std::vector<NodeID> all(g.n);
    for (std::size_t u = 0; u < g.n; ++u) part[u] = pg.block(u), all[u] = u;
    constexpr bool NA = Cache::kIteratesNonadjacentBlocks, EX = Cache::kIteratesExactGains;
    check_cache(g, *cache, part, k, all, "after initialize()", NA, EX, true);
    const int rounds = static_cast<int>(sim::range(1, 3));
    for (int r = 0; r < rounds; ++r) {
      std::vector<BlockID> to(part);
      std::size_t moves = 0;
      {
        sim::NoPreempt np;
        const double p = sim::coin() ? 0.9 : 0.3;
        for (std::size_t u = 0; u < g.n; ++u)
          if (sim::coin(p)) {
            to[u] = static_cast<BlockID>(sim::range(0, k - 1));
            moves += to[u] != part[u];
          }
      }
      tbb::parallel_for(tbb::blocked_range<std::size_t>(0, g.n, 1), [&](const auto &range) {
        for (std::size_t u = range.begin(); u != range.end(); ++u) {
          if (to[u] == part[u]) continue;
          pg.set_block(u, to[u]);
          cache->move(u, part[u], to[u]);
        }
      });
      part = to;
      check_cache(g, *cache, part, k, all, "after concurrent moves", NA, EX, true);
      if (P > 1 && moves > 1 && g.m() > 0) sim::mark_nontrivial();
    }
    // Overlays of several workers at the same time; the shared cache does not change.
    const int overlays = static_cast<int>(sim::range(1, 3));
    std::vector<std::vector<std::pair<NodeID, BlockID>>> ops(overlays);
    for (auto &v : ops) {
      const int m = static_cast<int>(sim::range(1, 12));
      for (int i = 0; i < m; ++i)
        v.push_back({static_cast<NodeID>(sim::range(0, g.n - 1)), static_cast<BlockID>(sim::range(0, k - 1))});
    }
    tbb::parallel_for(tbb::blocked_range<int>(0, overlays, 1), [&](const auto &range) {
      for (int w = range.begin(); w != range.end(); ++w) {
        DeltaPartitionedGraph d(&pg);
        typename Cache::DeltaGainCache dc(*cache, d);
        std::vector<BlockID> mine(part);
        std::size_t since_clear = 0;
        for (const auto &[u, b] : ops[w]) {
          if (mine[u] == b) continue;
          d.set_block(u, b);
          dc.move(u, mine[u], b);
          mine[u] = b;
          std::vector<NodeID> look{u};
          for (std::size_t e = g.xadj[u]; e < g.xadj[u + 1] && look.size() < 6; ++e) look.push_back(g.adj[e]);
          check_cache(g, dc, mine, k, look, "overlay", NA, EX, false);
          if (++since_clear == 5) {
            d.clear();
            dc.clear();
            mine = part;
            since_clear = 0;
          }
        }
        check_cache(g, dc, mine, k, all, "overlay", NA, EX, false);
      }
    });
    check_cache(g, *cache, part, k, all, "after dropped overlays", NA, EX, true);
    prev_n = g.n;
  }
  (void)prev_n;
  cache->free();
}

template <typename GraphT> void pick(int which, int P, const Context &ctx, bool compressed) {
  if constexpr (std::is_same_v<GraphT, CSRGraph>) {
    switch (which) {
    case 1:
      return scenario<GraphT, LargeKSparseGainCache<GraphT>>(P, ctx, "sparse-large-k", compressed);
    case 3:
      return scenario<GraphT, LargeKCompactHashingGainCache<GraphT>>(P, ctx, "compact-hashing-large-k", compressed);
    case 4:
      return scenario<GraphT, NormalHashingGainCache<GraphT>>(P, ctx, "hashing", compressed);
    case 5:
      return scenario<GraphT, LargeKHashingGainCache<GraphT>>(P, ctx, "hashing-large-k", compressed);
    case 6:
      return scenario<GraphT, NormalDenseGainCache<GraphT>>(P, ctx, "dense", compressed);
    case 7:
      return scenario<GraphT, LargeKDenseGainCache<GraphT>>(P, ctx, "dense-large-k", compressed);
    default:
      break;
    }
  }
  switch (which % 3) {
  case 0:
    return scenario<GraphT, NormalSparseGainCache<GraphT>>(P, ctx, "sparse", compressed);
  case 1:
    return scenario<GraphT, NormalOnTheFlyGainCache<GraphT>>(P, ctx, "on-the-fly", compressed);
  default:
    return scenario<GraphT, NormalCompactHashingGainCache<GraphT>>(P, ctx, "compact-hashing", compressed);
  }
}

void run() {
  const int P = static_cast<int>(sim::range(1, 6));
  sim::tbb_configure(P);
  Context ctx = create_context_by_preset_name("default");
  auto &fm = ctx.refinement.kway_fm;
  if (sim::coin(0.4)) fm.constant_high_degree_threshold = sim::range(0, 12);
  if (sim::coin(0.4)) fm.k_based_high_degree_threshold = 0.5 * static_cast<double>(sim::range(0, 4));
  const int which = static_cast<int>(sim::range(0, 11));
  if (sim::coin(0.25)) {
    pick<CompressedGraph>(which, P, ctx, true);
  } else {
    pick<CSRGraph>(which, P, ctx, false);
  }
}
} // namespace

sim::Check sim::the_check = {"shm_gains", run, 100'000'000, "hang"};
