// C09: compressed graphs are equivalent to the graph they compress; partitioning them works.
#include "shm_e2e.h"

#include <atomic>
#include <numeric>

#include <tbb/parallel_for.h>
#include <tbb/parallel_invoke.h>

#include "kaminpar-shm/graphutils/compressed_graph_builder.h"

namespace {
using namespace e2e;

// Neighborhoods that mix runs of consecutive ids with scattered ids, hubs and isolated nodes.
G encoding_graph(std::size_t n, std::size_t hub_degree) {
  sim::NoPreempt np;
  std::map<std::pair<std::size_t, std::size_t>, i64> E;
  auto add = [&](std::size_t u, std::size_t v) {
    if (u == v || u >= n || v >= n) return;
    E[{std::min(u, v), std::max(u, v)}] = 1;
  };
  const std::size_t active = std::max<std::size_t>(1, n < 200 ? n : 40);
  const std::size_t rows = sim::range(1, active);
  for (std::size_t r = 0; r < rows; ++r) {
    const std::size_t u = sim::range(0, n - 1);
    const std::size_t parts = sim::range(0, 4);
    for (std::size_t i = 0; i < parts; ++i) {
      const std::size_t start = sim::range(0, n - 1);
      const std::size_t len = sim::coin() ? 1 : sim::range(2, 8); // around the interval threshold
      for (std::size_t j = 0; j < len; ++j) add(u, start + j);
    }
  }
  if (hub_degree > 0) {
    const std::size_t hub = sim::range(0, n - 1);
    const std::size_t stride = std::max<std::size_t>(1, (n - 1) / hub_degree);
    std::size_t d = 0;
    const std::size_t gap_every = sim::range(2, 9);
    for (std::size_t v = 0; v < n && d < hub_degree; v += (stride > 1 && v % gap_every == 0) ? stride : 1)
      if (v != hub) add(hub, v), ++d;
  }
  G g = gen::from_edges(n, E);
  g.family = "runs";
  return g;
}

void weigh(G &g, bool vw, bool ew, i64 max_w) {
  sim::NoPreempt np;
  if (vw) {
    g.has_vw = true;
    for (auto &w : g.vw) w = static_cast<i64>(sim::range(1, max_w));
  }
  if (ew) {
    g.has_ew = true;
    for (std::size_t u = 0; u < g.n; ++u)
      for (std::size_t e = g.xadj[u]; e < g.xadj[u + 1]; ++e) {
        const std::size_t v = g.adj[e];
        if (v < u) continue;
        const i64 w = sim::coin() ? static_cast<i64>(sim::range(1, 300)) : static_cast<i64>(sim::range(1, max_w));
        g.ew[e] = w;
        for (std::size_t f = g.xadj[v]; f < g.xadj[v + 1]; ++f)
          if (g.adj[f] == u) g.ew[f] = w;
      }
  }
}

// One reader: every access path of the compressed graph against the model.
void read_all(const CompressedGraph &c, const G &g, int salt) {
  std::size_t max_degree = 0;
  for (std::size_t i = 0; i < g.n; ++i) {
    const NodeID u = static_cast<NodeID>((i * 7 + salt) % g.n == i ? i : (i + salt) % g.n);
    std::vector<std::pair<std::size_t, i64>> a, b;
    const std::size_t d = c.degree(u);
    SIM_CHECK(d == g.deg(u), "wrong-degree", sim::fmt("degree of node %u is %zu, expected %zu", u, d, g.deg(u)));
    max_degree = std::max(max_degree, d);
    c.adjacent_nodes(u, [&](const NodeID v, const EdgeWeight w) { a.push_back({v, w}); });
    {
      sim::NoPreempt np;
      for (std::size_t e = g.xadj[u]; e < g.xadj[u + 1]; ++e) b.push_back({g.adj[e], g.ew[e]});
      std::sort(a.begin(), a.end());
      std::sort(b.begin(), b.end());
    }
    SIM_CHECK(a == b, "wrong-neighborhood", sim::fmt("neighborhood of node %u differs: %zu decoded, %zu expected", u, a.size(), b.size()));
    if (d > 0 && (salt + i) % 3 == 0) {
      const std::size_t limit = 1 + (salt * 5 + i) % (d + 2);
      std::size_t seen = 0;
      bool ok = true;
      c.adjacent_nodes(u, static_cast<NodeID>(limit), [&](const NodeID v, const EdgeWeight w) {
        ++seen;
        ok = ok && std::binary_search(b.begin(), b.end(), std::pair<std::size_t, i64>(v, w));
      });
      SIM_CHECK(ok && seen == std::min(limit, d), "wrong-prefix",
                sim::fmt("%zu of %zu neighbors of node %u requested: %zu visited", limit, d, u, seen));
      std::size_t names = 0;
      c.adjacent_nodes(u, [&](const NodeID) { ++names; });
      SIM_CHECK(names == d, "wrong-neighborhood", "iteration without weights differs");
      // stop early
      std::size_t stopped = 0;
      const std::size_t stop_at = 1 + i % d;
      c.adjacent_nodes(u, [&](const NodeID, const EdgeWeight) { return ++stopped == stop_at; });
      SIM_CHECK(stopped == stop_at, "wrong-stop", sim::fmt("node %u: iteration was to stop after %zu neighbors, visited %zu", u, stop_at, stopped));
    }
    if (d > 0 && (salt + i) % 4 == 1) {
      std::atomic<i64> sum_v = 0, sum_w = 0, cnt = 0;
      c.pfor_adjacent_nodes(u, std::numeric_limits<NodeID>::max(), 2, [&](auto &&local) {
        local([&](const NodeID v, const EdgeWeight w) {
          sum_v += v;
          sum_w += w;
          ++cnt;
        });
      });
      i64 ev = 0, ew = 0;
      for (auto &[v, w] : b) ev += v, ew += w;
      SIM_CHECK(cnt == static_cast<i64>(d) && sum_v == ev && sum_w == ew, "wrong-parallel-decode",
                sim::fmt("parallel iteration over the neighbors of node %u visits %ld of %zu neighbors (checksum %s)", u, cnt.load(), d,
                         sum_v == ev && sum_w == ew ? "ok" : "differs"));
    }
    SIM_CHECK(static_cast<i64>(c.node_weight(u)) == g.vw[u], "wrong-node-weight", sim::fmt("weight of node %u is %ld, expected %ld", u, (long)c.node_weight(u), (long)g.vw[u]));
  }
  if (g.n > 0 && salt == 0)
    SIM_CHECK(c.max_degree() == max_degree, "wrong-max-degree", sim::fmt("max degree %u, expected %zu", c.max_degree(), max_degree));
}

void check_equivalent(const CompressedGraph &c, const G &g, bool sorted, int P) {
  SIM_CHECK(c.n() == g.n && c.m() == g.m(), "wrong-size", sim::fmt("n=%u m=%lu, expected n=%zu m=%zu", c.n(), (unsigned long)c.m(), g.n, g.m()));
  SIM_CHECK(static_cast<i64>(c.total_node_weight()) == g.total_vw(), "wrong-total", sim::fmt("total node weight %ld, expected %ld", (long)c.total_node_weight(), (long)g.total_vw()));
  SIM_CHECK(static_cast<i64>(c.total_edge_weight()) == g.total_ew(), "wrong-total", sim::fmt("total edge weight %ld, expected %ld", (long)c.total_edge_weight(), (long)g.total_ew()));
  if (g.n > 0) SIM_CHECK(static_cast<i64>(c.max_node_weight()) == g.max_vw(), "wrong-total", sim::fmt("max node weight %ld, expected %ld", (long)c.max_node_weight(), (long)g.max_vw()));
  if (g.n > 0) {
    const int readers = g.n > 2000 ? 1 : static_cast<int>(sim::range(1, std::max(1, P)));
    tbb::parallel_for(tbb::blocked_range<int>(0, readers, 1), [&](const auto &r) {
      for (int i = r.begin(); i != r.end(); ++i) read_all(c, g, i);
    });
  }
  SIM_CHECK(c.sorted() == sorted, "wrong-order", "sorted() is wrong");
  if (sorted) {
    std::size_t covered = 0;
    for (std::size_t b = 0; b < c.number_of_buckets(); ++b) {
      covered += c.bucket_size(b);
      for (NodeID u = c.first_node_in_bucket(b); u < c.first_invalid_node_in_bucket(b); ++u) {
        std::size_t d = g.deg(u), bucket = 0;
        while (d > 0) d >>= 1, ++bucket;
        SIM_CHECK(bucket == b, "wrong-bucket", sim::fmt("node %u of degree %zu is in bucket %zu", u, g.deg(u), b));
      }
    }
    SIM_CHECK(covered == g.n, "wrong-bucket", sim::fmt("the buckets cover %zu of %zu nodes", covered, g.n));
  }
}

G relabel(const G &g, const std::vector<std::size_t> &order) { // new node i is old node order[i]
  sim::NoPreempt np;
  std::vector<std::size_t> pos(g.n);
  for (std::size_t i = 0; i < g.n; ++i) pos[order[i]] = i;
  G r;
  r.n = g.n;
  r.has_vw = g.has_vw, r.has_ew = g.has_ew;
  for (std::size_t i = 0; i < g.n; ++i) {
    const std::size_t u = order[i];
    r.vw.push_back(g.vw[u]);
    for (std::size_t e = g.xadj[u]; e < g.xadj[u + 1]; ++e) r.adj.push_back(pos[g.adj[e]]), r.ew.push_back(g.ew[e]);
    r.xadj.push_back(r.adj.size());
  }
  return r;
}

// Degree-bucket order as the partitioner expects it: isolated nodes at the end.
G isolated_last(const G &g) {
  const G s = degree_sorted(g);
  sim::NoPreempt np;
  std::vector<std::size_t> order;
  for (std::size_t u = 0; u < s.n; ++u)
    if (s.deg(u) > 0) order.push_back(u);
  for (std::size_t u = 0; u < s.n; ++u)
    if (s.deg(u) == 0) order.push_back(u);
  G r = relabel(s, order);
  r.family = g.family + "(sorted)";
  return r;
}

void partition() {
  static const char *presets[] = {"terapart", "terapart-strong", "terapart-largek", "default", "fast", "strong", "jet"};
  Workload w;
  w.P = w.threads = static_cast<int>(sim::range(1, 6));
  w.preset = presets[sim::range(0, 6)];
  w.ctx = create_context_by_preset_name(w.preset);
  w.ctx.compression.enabled = true;
  w.ctx.node_ordering = NodeOrdering::NATURAL;
  w.ctx.coarsening.contraction_limit = static_cast<NodeID>(sim::range(1, 8));
  if (sim::coin(0.2)) w.ctx.partitioning.mode = PartitioningMode::KWAY;
  gen::Opts o;
  o.max_n = sim::coin(0.2) ? 120 : 40;
  o.max_m = 3 * o.max_n;
  G g = gen::random_graph(o);
  const bool sorted = sim::coin(0.4);
  if (sorted) g = isolated_last(g);
  const BlockID k = static_cast<BlockID>(sim::range(1, 6));
  sim::tbb_configure(w.P);
  sim::note(sim::fmt("partition %s P=%d k=%u sorted=%d; %s", w.preset.c_str(), w.P, k, sorted, g.describe().c_str()));
  KaMinPar kmp(w.threads, w.ctx);
  kmp.set_output_level(OutputLevel::QUIET);
  kmp.set_graph(compressed_of(g, sorted));
  for (int calls = sim::coin(0.2) ? 2 : 1; calls > 0; --calls) {
    std::vector<BlockID> part(g.n, kInvalidBlockID);
    const EdgeWeight cut = kmp.compute_partition(k, 0.03, part);
    check_partition(g, part, k, cut);
  }
  if (g.n > 4 && g.m() > 0 && k > 1 && w.P > 1) sim::mark_nontrivial();
}

void run() {
  if (sim::coin(0.1)) return partition();
  const int P = static_cast<int>(sim::range(1, 6));
  sim::tbb_configure(P);
  G g;
  const int size = static_cast<int>(sim::range(0, 99));
  if (size < 2) { // a neighborhood that is split into parts
    const std::size_t d = 9998 + sim::range(0, 4) + (sim::coin() ? 0 : sim::range(0, 3) * 500);
    g = encoding_graph(d + 1 + sim::range(0, 2000), d);
  } else if (size < 5) { // more edges than chunks
    gen::Opts o;
    o.max_n = 2500;
    o.max_m = 7000;
    g = gen::random_graph(o);
  } else if (sim::coin()) {
    g = encoding_graph(sim::range(1, sim::coin(0.2) ? 120 : 30), sim::coin(0.3) ? sim::range(1, 40) : 0);
  } else {
    gen::Opts o;
    o.max_n = sim::coin(0.2) ? 150 : 40;
    o.max_m = 4 * o.max_n;
    o.p_vw = o.p_ew = 0;
    o.shuffle_ids = sim::coin();
    g = gen::random_graph(o);
  }
  if (!g.has_vw && !g.has_ew) weigh(g, sim::coin(0.5), sim::coin(0.5), sim::coin(0.2) ? 60000 : 9);
  const bool sorted = sim::coin(0.4);
  if (sorted) g = degree_sorted(g);
  const int how = static_cast<int>(sim::range(0, 4));
  sim::note(sim::fmt("how=%d P=%d sorted=%d; %s", how, P, sorted, g.describe().c_str()));
  // shuffle the neighborhoods of the input
  G in = g;
  if (sim::coin(0.5)) {
    sim::NoPreempt np;
    for (std::size_t u = 0; u < in.n; ++u)
      for (std::size_t i = in.deg(u); i > 1; --i) {
        const std::size_t j = sim::range(0, i - 1);
        std::swap(in.adj[in.xadj[u] + i - 1], in.adj[in.xadj[u] + j]);
        std::swap(in.ew[in.xadj[u] + i - 1], in.ew[in.xadj[u] + j]);
      }
  }
  if (P > 1 && g.m() > 0 && how != 0) sim::mark_nontrivial();
  const auto csr = csr_of(in, sorted);
  switch (how) {
  case 0: {
    const CompressedGraph c = CompressedGraphBuilder::compress(*csr);
    return check_equivalent(c, g, sorted, P);
  }
  case 4: { // the uncompressed copy that initial partitioning works on
    const Graph c = Graph(std::make_unique<CompressedGraph>(parallel_compress(*csr)));
    const CSRGraph copy(c);
    return check_same_graph(copy, g, "wrong-copy");
  }
  case 1: {
    const CompressedGraph c = parallel_compress(*csr);
    return check_equivalent(c, g, sorted, P);
  }
  case 2: { // compress a permuted view of the graph
    std::vector<std::size_t> order(g.n);
    {
      sim::NoPreempt np;
      std::iota(order.begin(), order.end(), 0);
      for (std::size_t i = g.n; i > 1; --i) std::swap(order[i - 1], order[sim::range(0, i - 1)]);
      if (sorted) std::sort(order.begin(), order.end());
    }
    std::vector<std::size_t> pos(g.n);
    for (std::size_t i = 0; i < g.n; ++i) pos[order[i]] = i;
    const G r = relabel(g, order);
    const CompressedGraph c = parallel_compress(
        in.n, in.m(), in.has_vw, in.has_ew, sorted, [&](const NodeID i) { return static_cast<NodeID>(order[i]); },
        [&](const NodeID u) { return static_cast<NodeID>(in.deg(u)); }, [&](const NodeID u) { return static_cast<EdgeID>(in.xadj[u]); },
        [&](const EdgeID e) { return static_cast<NodeID>(pos[in.adj[e]]); }, [&](const NodeID u) { return static_cast<NodeWeight>(in.vw[u]); },
        [&](const EdgeID e) { return static_cast<EdgeWeight>(in.ew[e]); });
    return check_equivalent(c, r, sorted, P);
  }
  default: { // several graphs are compressed at the same time
    gen::Opts o;
    const G h = gen::random_graph(o);
    const auto csr2 = csr_of(h, false);
    std::unique_ptr<CompressedGraph> c1, c2;
    tbb::parallel_invoke([&] { c1 = std::make_unique<CompressedGraph>(parallel_compress(*csr)); },
                         [&] { c2 = std::make_unique<CompressedGraph>(parallel_compress(*csr2)); });
    check_equivalent(*c1, g, sorted, P);
    return check_equivalent(*c2, h, false, P);
  }
  }
}
} // namespace

sim::Check sim::the_check = {"shm_compress", run, 400'000'000, "hang"};
