// C07: concurrent block moves conserve node and block weights; the balancer repairs balance.
#include "shm_util.h"

#include <tbb/parallel_for.h>

#include "kaminpar-shm/datastructures/delta_partitioned_graph.h"
#include "kaminpar-shm/metrics.h"
#include "kaminpar-shm/presets.h"
#include "kaminpar-shm/refinement/balancer/greedy_balancer.h"

namespace {
using namespace su;

template <typename PG> void check_weights(const G &g, const PG &pg, const char *when) {
  sim::NoPreempt np;
  std::vector<i64> w(pg.k(), 0);
  for (std::size_t u = 0; u < g.n; ++u) {
    const BlockID b = pg.block(u);
    if (b == kInvalidBlockID) continue;
    SIM_CHECK(b < pg.k(), "invalid-block", sim::fmt("%s: node %zu is in block %u of %u", when, u, b, pg.k()));
    w[b] += g.vw[u];
  }
  for (BlockID b = 0; b < pg.k(); ++b)
    SIM_CHECK(pg.block_weight(b) == w[b], "block-weight",
              sim::fmt("%s: block %u has weight %ld, its nodes weigh %ld", when, b, (long)pg.block_weight(b), (long)w[b]));
}

enum Op { NONE, TRY, SET, WEIGHT_ONLY, OVERLAY };

struct Task {
  Op op;
  BlockID to, to2;
  bool commit;
};

// Concurrent operations on disjoint nodes.
template <typename GraphT>
void concurrent_moves(const G &g, GenericPartitionedGraph<GraphT> &pg, const std::vector<i64> &limit, int P) {
  const BlockID k = pg.k();
  const int rounds = static_cast<int>(sim::range(1, 3));
  for (int r = 0; r < rounds; ++r) {
    const bool only_bounded = sim::coin(0.5);
    const bool overlays = !only_bounded && std::is_same_v<GraphT, Graph>;
    std::vector<Task> tasks(g.n);
    std::vector<BlockID> before(g.n);
    std::vector<i64> w0(k, 0);
    std::vector<char> accepted(g.n, 0), attempted(g.n, 0);
    bool starts_within = true;
    {
      sim::NoPreempt np;
      for (std::size_t u = 0; u < g.n; ++u) {
        before[u] = pg.block(u);
        auto &t = tasks[u];
        t.to = static_cast<BlockID>(sim::range(0, k - 1));
        if (before[u] == kInvalidBlockID) { // unassigned nodes can only be assigned
          t.op = only_bounded ? NONE : (sim::coin(0.3) ? NONE : SET);
          continue;
        }
        w0[before[u]] += g.vw[u];
        t.op = only_bounded ? (sim::coin(0.2) ? NONE : TRY)
                            : sim::pick(std::vector<Op>{TRY, SET, NONE, WEIGHT_ONLY, overlays ? OVERLAY : TRY});
        t.to2 = static_cast<BlockID>(sim::range(0, k - 1));
        t.commit = sim::coin();
      }
      for (BlockID b = 0; b < k; ++b) starts_within = starts_within && w0[b] <= limit[b];
    }
    auto bound = [&](BlockID b) {
      if (!only_bounded) return;
      const i64 w = pg.block_weight(b);
      SIM_CHECK(w <= std::max(limit[b], w0[b]), "overfilled",
                sim::fmt("block %u weighs %ld, limit %ld, before %ld", b, (long)w, (long)limit[b], (long)w0[b]));
    };
    tbb::parallel_for(tbb::blocked_range<std::size_t>(0, g.n, 1), [&](const auto &range) {
      for (std::size_t u = range.begin(); u != range.end(); ++u) {
        const auto &t = tasks[u];
        const BlockID from = before[u];
        switch (t.op) {
        case NONE:
          break;
        case TRY:
          if (t.to == from) break;
          attempted[u] = 1;
          accepted[u] = pg.move(u, from, t.to, limit[t.to]);
          SIM_CHECK(pg.block(u) == (accepted[u] ? t.to : from), "move-result",
                    sim::fmt("move() said %d, node %zu is in block %u (from %u to %u)", accepted[u], u, pg.block(u), from, t.to));
          bound(t.to);
          break;
        case SET:
          pg.set_block(u, t.to);
          SIM_CHECK(pg.block(u) == t.to, "move-result", "set_block() was lost");
          break;
        case WEIGHT_ONLY:
          if (t.to == from) break;
          attempted[u] = 1;
          accepted[u] = pg.move_block_weight(from, t.to, g.vw[u], limit[t.to]);
          if (accepted[u]) pg.template set_block<false>(u, t.to);
          break;
        case OVERLAY:
          if constexpr (std::is_same_v<GraphT, Graph>) {
            DeltaPartitionedGraph d(&pg);
            d.set_block(u, t.to);
            SIM_CHECK(d.block(u) == t.to && pg.block(u) == from, "overlay", "overlay move is wrong or leaks");
            d.set_block(u, t.to2);
            SIM_CHECK(d.block(u) == t.to2, "overlay", "second overlay move is lost");
            if (t.commit) {
              d.for_each([&](const NodeID v, const BlockID b) {
                SIM_CHECK(v == u && b == t.to2, "overlay", "overlay enumerates a wrong move");
                pg.set_block(v, b);
              });
            }
            d.clear();
            SIM_CHECK(d.size() == 0 && d.block(u) == pg.block(u), "overlay", "cleared overlay still has entries");
          }
          break;
        }
      }
    });
    check_weights(g, pg, "after the moves");
    sim::NoPreempt np;
    std::size_t acc = 0, rej = 0;
    for (std::size_t u = 0; u < g.n; ++u) {
      const auto &t = tasks[u];
      BlockID expect = before[u];
      if (t.op == SET || ((t.op == TRY || t.op == WEIGHT_ONLY) && accepted[u])) expect = t.to;
      if (t.op == OVERLAY && t.commit) expect = t.to2;
      SIM_CHECK(pg.block(u) == expect, "lost-move", sim::fmt("node %zu is in block %u instead of %u", u, pg.block(u), expect));
      acc += accepted[u];
      rej += attempted[u] && !accepted[u];
      // with one worker the answers are determined
    }
    if (only_bounded && P > 1 && acc > 0 && rej > 0) sim::mark_nontrivial();
    if (only_bounded && P == 1 && starts_within) {
      // a rejection needs a reason: at no time more room than at the end plus everything that left
      for (std::size_t u = 0; u < g.n; ++u) {
        if (!attempted[u] || accepted[u]) continue;
        i64 lightest = w0[tasks[u].to], now = pg.block_weight(tasks[u].to), in = 0;
        for (std::size_t v = 0; v < g.n; ++v)
          if (accepted[v] && tasks[v].to == tasks[u].to) in += g.vw[v];
        (void)lightest, (void)now;
        SIM_CHECK(w0[tasks[u].to] + in + g.vw[u] > limit[tasks[u].to], "needless-rejection",
                  sim::fmt("move of node %zu to block %u was rejected", u, tasks[u].to));
      }
    }
  }
}

// One overlay with many moves against a model.
void overlay_history(const G &g, PartitionedGraph &pg) {
  sim::NoPreempt np;
  const BlockID k = pg.k();
  for (std::size_t u = 0; u < g.n; ++u)
    if (pg.block(u) == kInvalidBlockID) pg.set_block(u, 0);
  DeltaPartitionedGraph d(&pg);
  std::map<NodeID, BlockID> model;
  std::vector<i64> dw(k, 0);
  const int steps = static_cast<int>(sim::range(0, 40));
  for (int s = 0; s < steps && g.n > 0; ++s) {
    const NodeID u = static_cast<NodeID>(sim::range(0, g.n - 1));
    const BlockID b = static_cast<BlockID>(sim::range(0, k - 1));
    const BlockID old = model.count(u) ? model[u] : pg.block(u);
    d.set_block(u, b);
    model[u] = b;
    dw[old] -= g.vw[u];
    dw[b] += g.vw[u];
    if (sim::coin(0.05)) {
      d.clear();
      model.clear();
      std::fill(dw.begin(), dw.end(), 0);
    }
    for (BlockID x = 0; x < k; ++x)
      SIM_CHECK(d.block_weight(x) == pg.block_weight(x) + dw[x], "overlay", "overlay block weight is wrong");
    for (NodeID v = 0; v < g.n; ++v)
      SIM_CHECK(d.block(v) == (model.count(v) ? model[v] : pg.block(v)), "overlay", "overlay block is wrong");
    std::map<NodeID, BlockID> seen;
    std::size_t entries = 0;
    d.for_each([&](const NodeID v, const BlockID x) {
      seen[v] = x;
      ++entries;
    });
    SIM_CHECK(entries == seen.size() && seen == model && d.size() == model.size(), "overlay", "overlay enumeration is wrong");
  }
}

void balance(const G &g, const Graph &graph, PartitionedGraph &pg, int P) {
  Context ctx = create_context_by_preset_name("default");
  ctx.parallel.num_threads = P;
  const BlockID k = pg.k();
  if (sim::coin()) {
    ctx.partition.setup(graph, k, sim::pick(std::vector<double>{0.0, 0.03, 0.2}));
  } else {
    std::vector<BlockWeight> w(k);
    i64 sum = 0;
    for (auto &x : w) sum += x = static_cast<BlockWeight>(sim::range(1, 1 + 2 * g.total_vw() / k));
    while (sum < g.total_vw()) {
      const BlockWeight more = static_cast<BlockWeight>(1 + sim::range(0, g.total_vw() / k));
      w[sim::range(0, k - 1)] += more;
      sum += more;
    }
    ctx.partition.setup(graph, w);
  }
  std::vector<BlockID> before(g.n);
  std::vector<i64> w0(k, 0);
  i64 over0 = 0;
  {
    sim::NoPreempt np;
    for (std::size_t u = 0; u < g.n; ++u) {
      if (pg.block(u) == kInvalidBlockID) pg.set_block(u, 0);
      before[u] = pg.block(u);
      w0[before[u]] += g.vw[u];
    }
    for (BlockID b = 0; b < k; ++b) over0 += std::max<i64>(0, w0[b] - ctx.partition.max_block_weight(b));
  }
  GreedyBalancer balancer(ctx);
  balancer.initialize(pg);
  const bool ret = balancer.refine(pg, ctx.partition);
  check_weights(g, pg, "after balancing");
  sim::NoPreempt np;
  i64 over = 0;
  for (BlockID b = 0; b < k; ++b) {
    const i64 w = pg.block_weight(b), m = ctx.partition.max_block_weight(b);
    over += std::max<i64>(0, w - m);
    SIM_CHECK(w <= m || w <= w0[b], "overfilled", sim::fmt("balancing raised block %u from %ld to %ld, maximum %ld", b, (long)w0[b], (long)w, (long)m));
    // only as needed: with unit weights no overloaded block falls below its maximum
    if (!g.has_vw && w0[b] > m)
      SIM_CHECK(w >= m, "needless-move", sim::fmt("balancing lowered block %u from %ld to %ld, maximum %ld", b, (long)w0[b], (long)w, (long)m));
  }
  SIM_CHECK(ret == (over == 0), "wrong-answer", "the balancer's answer is wrong");
  if (!g.has_vw) SIM_CHECK(over == 0, "not-balanced", sim::fmt("overload %ld left of %ld", (long)over, (long)over0));
  for (std::size_t u = 0; u < g.n; ++u)
    SIM_CHECK(pg.block(u) == before[u] || w0[before[u]] > ctx.partition.max_block_weight(before[u]), "needless-move",
              sim::fmt("node %zu left block %u which was not overloaded", u, before[u]));
  if (P > 1 && over0 > 0) sim::mark_nontrivial();
}

void run() {
  const int P = static_cast<int>(sim::range(1, 6));
  sim::tbb_configure(P);
  gen::Opts o;
  o.max_n = sim::coin(0.2) ? 100 : 30;
  o.max_m = 3 * o.max_n;
  G g = gen::random_graph(o);
  const int mode = static_cast<int>(sim::range(0, 4));
  const bool compressed = sim::coin(0.2);
  BlockID k = static_cast<BlockID>(sim::range(1, 8));
  const bool huge = mode == 4 && sim::coin(0.1);
  if (huge) k = static_cast<BlockID>(sim::range(65534, 65540));
  const bool unassigned = mode >= 3 && sim::coin(0.4);
  sim::note(sim::fmt("P=%d mode=%d k=%u compressed=%d unassigned=%d; %s", P, mode, k, compressed, unassigned, g.describe().c_str()));
  const auto part = gen::random_partition(g, k);
  Graph graph = compressed ? compressed_of(g) : graph_of(g);
  StaticArray<BlockID> arr = unassigned ? StaticArray<BlockID>() : array_of<BlockID>(part);
  if (!unassigned && sim::coin(0.1))
    for (std::size_t u = 0; u < g.n; ++u)
      if (sim::coin(0.3)) arr[u] = mode == 2 ? arr[u] : kInvalidBlockID;
  std::vector<i64> limit(k);
  {
    sim::NoPreempt np;
    for (auto &l : limit) l = std::max<i64>(1, g.total_vw() / k) + (k < 100 ? static_cast<i64>(sim::range(0, 8)) : 1);
  }
  if (mode == 2) {
    PartitionedGraph pg(graph, k, std::move(arr));
    check_weights(g, pg, "after construction");
    if (g.n > 0 && sim::coin()) overlay_history(g, pg);
    if (g.n > 0) balance(g, graph, pg, P);
  } else if (sim::coin(0.3) && !compressed) {
    auto csr = csr_of(g);
    PartitionedCSRGraph pg = sim::coin() ? PartitionedCSRGraph(PartitionedCSRGraph::seq{}, *csr, k, std::move(arr))
                                         : PartitionedCSRGraph(*csr, k, std::move(arr));
    check_weights(g, pg, "after construction");
    if (!huge) concurrent_moves(g, pg, limit, P);
  } else {
    PartitionedGraph pg = sim::coin() ? PartitionedGraph(PartitionedGraph::seq{}, graph, k, std::move(arr))
                                      : PartitionedGraph(graph, k, std::move(arr));
    check_weights(g, pg, "after construction");
    if (!huge) concurrent_moves(g, pg, limit, P);
  }
}
} // namespace

sim::Check sim::the_check = {"shm_moves", run, 100'000'000, "hang"};
