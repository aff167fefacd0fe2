// C31: distributed graphs, plain or compressed, describe the same global graph.
#define DIST_UTIL_GRAPH
#include "dist.h"
#include "dist_util.h"

#include "kaminpar-dist/metrics.h"

#include <atomic>
#include <cmath>

using namespace dist_util;

namespace {
struct HighDegree {
  std::vector<std::uint64_t> global;
  std::vector<char> high;
};
struct W : GraphJob {
  unsigned k = 2;
  std::vector<unsigned> part;
  std::vector<std::size_t> thresholds;
  int salt = 0;
  bool parallel_build = false;
  std::vector<HighDegree> high;
  std::vector<i64> local_cut;
};

// Ghost nodes discovered by several threads at once, as dKaMinPar::import_graph() does it.
DistributedGraph build_parallel(const G &g, const std::vector<std::size_t> &dist, MPI_Comm comm) {
  const PEID size = kmpi::get_comm_size(comm), rank = kmpi::get_comm_rank(comm);
  const std::size_t from = dist[rank], to = dist[rank + 1];
  const NodeID n = to - from;
  const EdgeID m = g.xadj[to] - g.xadj[from];
  StaticArray<GlobalNodeID> node_distribution(size + 1);
  StaticArray<GlobalEdgeID> edge_distribution(size + 1);
  for (int i = 0; i <= size; ++i) {
    node_distribution[i] = dist[i];
    edge_distribution[i] = g.xadj[dist[i]];
  }
  StaticArray<EdgeID> nodes(n + 1);
  StaticArray<NodeID> edges(m);
  StaticArray<EdgeWeight> ew;
  StaticArray<NodeWeight> vw;
  graph::GhostNodeMapper mapper(rank, node_distribution);
  for (NodeID u = 0; u <= n; ++u) nodes[u] = g.xadj[from + u] - g.xadj[from];
  tbb::parallel_for<EdgeID>(0, m, [&](const EdgeID e) {
    const std::size_t v = g.adj[g.xadj[from] + e];
    edges[e] = v >= from && v < to ? static_cast<NodeID>(v - from) : mapper.new_ghost_node(v);
  });
  if (g.has_ew) {
    ew.resize(m);
    for (EdgeID e = 0; e < m; ++e) ew[e] = g.ew[g.xadj[from] + e];
  }
  if (g.has_vw) {
    vw.resize(n + (mapper.next_ghost_node() - n));
    for (NodeID u = 0; u < n; ++u) vw[u] = g.vw[from + u];
  }
  auto [global_to_ghost, ghost_to_global, ghost_owner] = mapper.finalize();
  DistributedGraph graph(std::make_unique<DistributedCSRGraph>(std::move(node_distribution), std::move(edge_distribution), std::move(nodes),
                                                               std::move(edges), std::move(vw), std::move(ew), std::move(ghost_owner),
                                                               std::move(ghost_to_global), std::move(global_to_ghost), false, comm));
  if (g.has_vw) graph::synchronize_ghost_node_weights(graph);
  return graph;
}

// Every way to read the local part.
template <typename Graph> void read_all(const Graph &g, const G &ref, const std::vector<std::size_t> &dist, int salt, const char *what) {
  const auto who = [&](const std::string &m) { return std::string(what) + ": " + m; };
  const PEID size = kmpi::get_comm_size(g.communicator());
  for (int pe = 0; pe < size; ++pe) {
    SIM_CHECK(g.n(pe) == dist[pe + 1] - dist[pe] && g.offset_n(pe) == dist[pe] && g.node_distribution(pe) == dist[pe], "distribution",
              who(sim::fmt("nodes of process %d", pe)));
    SIM_CHECK(g.m(pe) == ref.xadj[dist[pe + 1]] - ref.xadj[dist[pe]] && g.offset_m(pe) == ref.xadj[dist[pe]], "distribution",
              who(sim::fmt("edges of process %d", pe)));
  }
  std::set<std::uint64_t> here;
  for (NodeID u : g.all_nodes()) here.insert(g.local_to_global_node(u));
  SIM_CHECK(here.size() == g.total_n(), "id-mapping", who("two local nodes with the same global id"));
  for (std::size_t u = 0; u < ref.n; ++u) {
    const int owner = static_cast<int>(std::upper_bound(dist.begin() + 1, dist.end(), u) - dist.begin()) - 1;
    SIM_CHECK(g.find_owner_of_global_node(u) == owner, "id-mapping", who(sim::fmt("owner of node %zu", u)));
    SIM_CHECK(g.is_owned_global_node(u) == (owner == kmpi::get_comm_rank(g.communicator())), "id-mapping", who(sim::fmt("ownership of node %zu", u)));
    SIM_CHECK(g.contains_global_node(u) == (here.count(u) > 0), "id-mapping", who(sim::fmt("global node %zu is known: %d", u, !here.count(u))));
    if (here.count(u)) {
      SIM_CHECK(g.map_remote_node(static_cast<NodeID>(u - dist[owner]), owner) == g.global_to_local_node(u), "id-mapping",
                who(sim::fmt("node %zu by its number on process %d", u, owner)));
    }
  }
  SIM_CHECK(!g.contains_local_node(g.total_n()), "id-mapping", "unknown local node");
  std::size_t max_degree = 0;
  for (NodeID u : g.nodes()) {
    const std::size_t d = g.degree(u);
    max_degree = std::max(max_degree, d);
    std::multiset<std::pair<NodeID, i64>> all;
    g.adjacent_nodes(u, [&](const NodeID v, const EdgeWeight w) { all.insert({v, w}); });
    std::size_t names = 0;
    g.adjacent_nodes(u, [&](const NodeID) { ++names; });
    SIM_CHECK(all.size() == d && names == d, "local-view", who(sim::fmt("node %u has degree %zu, %zu / %zu neighbours", u, d, all.size(), names)));
    if (d > 0 && (u + salt) % 2 == 0) {
      const std::size_t limit = 1 + (salt * 5 + u) % (d + 2);
      std::size_t seen = 0;
      bool ok = true;
      g.adjacent_nodes(u, static_cast<NodeID>(limit), [&](const NodeID v, const EdgeWeight w) {
        ++seen;
        ok = ok && all.count({v, w}) > 0;
      });
      SIM_CHECK(ok && seen == std::min(limit, d), "local-view", who(sim::fmt("%zu of %zu neighbours of node %u requested, %zu visited", limit, d, u, seen)));
      std::size_t stopped = 0;
      const std::size_t stop_at = 1 + u % d;
      g.adjacent_nodes(u, [&](const NodeID, const EdgeWeight) { return ++stopped == stop_at; });
      SIM_CHECK(stopped == stop_at, "local-view", who(sim::fmt("iteration was to stop after %zu neighbours, visited %zu", stop_at, stopped)));
    }
  }
  std::vector<std::atomic<int>> seen(g.total_n());
  g.pfor_all_nodes([&](const NodeID u) { ++seen[u]; });
  g.pfor_nodes([&](const NodeID u) { ++seen[u]; });
  g.pfor_ghost_nodes([&](const NodeID u) { ++seen[u]; });
  g.pfor_nodes_range([&](const auto &r) {
    for (NodeID u = r.begin(); u < r.end(); ++u) ++seen[u];
  });
  for (NodeID u : g.all_nodes())
    SIM_CHECK(seen[u] == (u < g.n() ? 3 : 2), "local-view", who(sim::fmt("parallel loops visit node %u %d times", u, seen[u].load())));
  std::atomic<std::size_t> edges = 0;
  std::atomic<std::uint64_t> sum = 0;
  g.pfor_edges([&](const NodeID v) {
    ++edges;
    sum += g.local_to_global_node(v);
  });
  std::uint64_t expected = 0;
  for (std::size_t e = ref.xadj[dist[kmpi::get_comm_rank(g.communicator())]]; e < ref.xadj[dist[kmpi::get_comm_rank(g.communicator()) + 1]]; ++e) expected += ref.adj[e];
  SIM_CHECK(edges == g.m() && sum == expected, "local-view", who("parallel loop over the edges"));
  SIM_CHECK(!g.sorted() && g.number_of_buckets() == 1 && g.bucket_size(0) == g.n() && g.first_node_in_bucket(0) == 0 && g.first_invalid_node_in_bucket(0) == g.n(),
            "local-view", who("degree bucket of an unordered graph"));
}
} // namespace

extern "C" {
sim::dist::Config dist_config = {200'000'000, "hang"};

void *dist_prepare() {
  auto *w = new W();
  gen::Opts o;
  const int size = static_cast<int>(sim::range(0, 9));
  o.max_n = size == 0 ? 900 : size < 3 ? 250 : 40;
  o.max_m = size == 0 ? 1200 : 4 * o.max_n;
  o.shuffle_neighbors = true;
  draw_graph_job(*w, size == 0 ? 5 : 10, 3, o);
  G &g = w->g;
  if (sim::coin(0.02)) { // a node so large that its compressed neighbourhood is split
    sim::NoPreempt np;
    const std::size_t n = sim::range(10'050, 12'100);
    const std::size_t hub = sim::range(0, n - 1);
    std::map<std::pair<std::size_t, std::size_t>, i64> E;
    for (std::size_t v = 0; v < n; ++v)
      if (v != hub && (v + hub) % 150 != 7) E[{std::min(v, hub), std::max(v, hub)}] = static_cast<i64>(1 + v % 5);
    g = gen::from_edges(n, E);
    g.has_ew = sim::coin();
    if (!g.has_ew) std::fill(g.ew.begin(), g.ew.end(), 1);
    g.family = "hub";
    w->dist = draw_distribution(g.n, w->P());
    sim::case_key(n * 31 + hub);
  } else if (sim::coin(0.25) && g.n > 0) { // weights whose local sums just fit
    sim::NoPreempt np;
    std::size_t most = 1, most_edges = 1;
    for (int i = 0; i < w->P(); ++i) {
      most = std::max(most, w->dist[i + 1] - w->dist[i]);
      most_edges = std::max(most_edges, g.xadj[w->dist[i + 1]] - g.xadj[w->dist[i]]);
    }
    const i64 max_vw = ((1ll << 31) - 1) / static_cast<i64>(most), max_ew = ((1ll << 31) - 1) / static_cast<i64>(most_edges);
    if (sim::coin(0.7)) {
      g.has_vw = true;
      for (auto &x : g.vw) x = sim::coin(0.7) ? max_vw : static_cast<i64>(sim::range(1, max_vw));
    }
    if (sim::coin(0.7)) {
      g.has_ew = true;
      for (std::size_t u = 0; u < g.n; ++u)
        for (std::size_t e = g.xadj[u]; e < g.xadj[u + 1]; ++e) {
          const std::size_t v = g.adj[e];
          if (u < v) {
            const i64 x = sim::coin(0.7) ? max_ew : static_cast<i64>(sim::range(1, max_ew));
            g.ew[e] = x;
            for (std::size_t f = g.xadj[v]; f < g.xadj[v + 1]; ++f)
              if (g.adj[f] == u) g.ew[f] = x;
          }
        }
    }
    g.family += "(heavy)";
  }
  w->k = static_cast<unsigned>(sim::range(1, 6));
  w->part = draw_partition(g, w->k);
  for (int c = static_cast<int>(sim::range(1, 3)); c > 0; --c) w->thresholds.push_back(sim::range(1, 12));
  w->salt = static_cast<int>(sim::range(0, 100));
  w->parallel_build = sim::coin();
  w->high.resize(w->P());
  w->local_cut.resize(w->P());
  sim::note(sim::fmt("%sk %u; %s", w->parallel_build ? "parallel build, " : "", w->k, describe(*w).c_str()));
  if (w->P() > 1 && g.n > 4 && g.m() > 0) sim::mark_nontrivial();
  return w;
}
int dist_ranks(void *w) { return static_cast<W *>(w)->b.n; }

void dist_rank(int r, void *wp) {
  W &w = *static_cast<W *>(wp);
  sim::tbb_configure(w.b.threads[r]);
  MPI_Comm comm = make_comm(w.b, r);
  const int i = w.b.index(r);
  if (i < 0) {
    return;
  }
  for (int kind = 0; kind < 2; ++kind) {
    const char *what = kind ? "compressed graph" : "graph";
    DistributedGraph graph = kind                 ? build_compressed_graph(w.g, w.dist, comm)
                             : w.parallel_build ? build_parallel(w.g, w.dist, comm)
                                                : build_graph(w.g, w.dist, comm);
    SIM_CHECK(graph.n() == 0 || graph.is_node_weighted() == w.g.has_vw, "local-view", "is_node_weighted");
    publish(w.views, i, view(graph), [&] { check_same(w.g, assemble(w.views, what), {}, what); });
    graph.reified([&](const auto &g) { read_all(g, w.g, w.dist, w.salt, what); });
    for (std::size_t t : w.thresholds) {
      graph.init_high_degree_info(static_cast<EdgeID>(t));
      HighDegree h;
      for (NodeID u : graph.all_nodes()) {
        h.global.push_back(graph.local_to_global_node(u));
        h.high.push_back(graph.is_high_degree_node(u));
      }
      publish(w.high, i, h, [&] {
        for (int p = 0; p < w.P(); ++p)
          for (std::size_t j = 0; j < w.high[p].global.size(); ++j) {
            const auto u = w.high[p].global[j];
            if (w.high[p].high[j] != (w.g.deg(u) > t))
              sim::fail("high-degree", sim::fmt("%s, process %d: node %lu has degree %zu, threshold %zu, classified as %d", what, p, (unsigned long)u, w.g.deg(u), t,
                                                w.high[p].high[j]));
          }
      });
    }
    DistributedPartitionedGraph p_graph = make_pgraph(graph, w.part, w.k);
    const i64 cut = metrics::edge_cut(p_graph);
    const double imbalance = metrics::imbalance(p_graph);
    const i64 actual = w.g.cut(w.part);
    SIM_CHECK(cut == actual, "edge-cut", sim::fmt("%s, process %d: cut %ld, actual cut %ld", what, i, (long)cut, (long)actual));
    if (w.g.n > 0) {
      const auto bw = w.g.block_weights(w.part, w.k);
      const i64 total = w.g.total_vw();
      const double expected = static_cast<double>(*std::max_element(bw.begin(), bw.end())) / static_cast<double>((total + w.k - 1) / w.k) - 1.0;
      SIM_CHECK(std::abs(std::max(0.0, expected) - imbalance) < 1e-9, "imbalance", sim::fmt("%s, process %d: imbalance %f, actual %f", what, i, imbalance, expected));
    }
    publish(w.local_cut, i, static_cast<i64>(metrics::local_edge_cut(p_graph)), [&] {
      SIM_CHECK(std::accumulate(w.local_cut.begin(), w.local_cut.end(), i64(0)) == 2 * actual, "edge-cut", "local cuts");
    });
    sim::mpi::meet(w.P());
  }
}

void dist_finish(void *) {}
}
