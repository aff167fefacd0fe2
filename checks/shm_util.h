// Conversions between model graphs and kaminpar-shm data structures.
#pragma once

#include "graphs.h"

#include <memory>

#include "kaminpar-shm/datastructures/compressed_graph.h"
#include "kaminpar-shm/datastructures/csr_graph.h"
#include "kaminpar-shm/datastructures/graph.h"
#include "kaminpar-shm/datastructures/partitioned_graph.h"
#include "kaminpar-shm/graphutils/parallel_compressed_graph_builder.h"

namespace su {
using namespace kaminpar;
using namespace kaminpar::shm;
using gen::G;
using gen::i64;

template <typename T, typename V> StaticArray<T> array_of(const V &v) {
  sim::NoPreempt np;
  StaticArray<T> a(v.size(), static_array::noinit);
  for (std::size_t i = 0; i < v.size(); ++i) a[i] = static_cast<T>(v[i]);
  return a;
}

inline std::unique_ptr<CSRGraph> csr_of(const G &g, bool sorted = false, bool force_w = false) {
  sim::NoPreempt np;
  return std::make_unique<CSRGraph>(
      array_of<EdgeID>(g.xadj), array_of<NodeID>(g.adj),
      (g.has_vw || force_w) ? array_of<NodeWeight>(g.vw) : StaticArray<NodeWeight>{},
      (g.has_ew || force_w) ? array_of<EdgeWeight>(g.ew) : StaticArray<EdgeWeight>{}, sorted);
}

inline Graph graph_of(const G &g, bool sorted = false) {
  sim::NoPreempt np;
  return Graph(csr_of(g, sorted));
}

inline Graph compressed_of(const G &g, bool sorted = false) {
  sim::NoPreempt np;
  return Graph(std::make_unique<CompressedGraph>(parallel_compress(*csr_of(g, sorted))));
}

template <typename PG> inline PG pgraph_of(const typename PG::Graph &graph, BlockID k,
                                           const std::vector<std::uint32_t> &part) {
  sim::NoPreempt np;
  return PG(graph, k, array_of<BlockID>(part));
}

// Renumbers the nodes so that they are sorted by degree buckets (isolated nodes first).
inline G degree_sorted(const G &g) {
  sim::NoPreempt np;
  auto bucket = [&](std::size_t u) {
    std::size_t d = g.deg(u), b = 0;
    while (d > 0) {
      d >>= 1;
      ++b;
    }
    return b;
  };
  std::vector<std::size_t> order(g.n), pos(g.n);
  for (std::size_t i = 0; i < g.n; ++i) order[i] = i;
  std::stable_sort(order.begin(), order.end(), [&](auto a, auto b) { return bucket(a) < bucket(b); });
  for (std::size_t i = 0; i < g.n; ++i) pos[order[i]] = i;
  G r;
  r.n = g.n;
  r.has_vw = g.has_vw;
  r.has_ew = g.has_ew;
  r.family = g.family + "(sorted)";
  r.xadj.assign(1, 0);
  for (std::size_t i = 0; i < g.n; ++i) {
    const std::size_t u = order[i];
    r.vw.push_back(g.vw[u]);
    std::vector<std::pair<std::size_t, i64>> nb;
    for (std::size_t e = g.xadj[u]; e < g.xadj[u + 1]; ++e) nb.push_back({pos[g.adj[e]], g.ew[e]});
    std::sort(nb.begin(), nb.end());
    for (auto &[v, w] : nb) {
      r.adj.push_back(v);
      r.ew.push_back(w);
    }
    r.xadj.push_back(r.adj.size());
  }
  return r;
}

// Quotient of `g` with respect to `cluster_of` (dense cluster ids in [0, c_n)).
template <typename Map> inline G quotient(const G &g, std::size_t c_n, const Map &cluster_of) {
  sim::NoPreempt np;
  std::vector<std::map<std::size_t, i64>> nb(c_n);
  G q;
  q.n = c_n;
  q.vw.assign(c_n, 0);
  q.has_vw = q.has_ew = true;
  for (std::size_t u = 0; u < g.n; ++u) {
    q.vw[cluster_of[u]] += g.vw[u];
    for (std::size_t e = g.xadj[u]; e < g.xadj[u + 1]; ++e)
      if (cluster_of[u] != cluster_of[g.adj[e]]) nb[cluster_of[u]][cluster_of[g.adj[e]]] += g.ew[e];
  }
  q.xadj.assign(1, 0);
  for (auto &m : nb) {
    for (auto &[v, w] : m) {
      q.adj.push_back(v);
      q.ew.push_back(w);
    }
    q.xadj.push_back(q.adj.size());
  }
  return q;
}

// Throws a violation if `graph` is not the model graph `g` (as sets of weighted neighbors).
template <typename GraphT>
inline void check_same_graph(const GraphT &graph, const G &g, const std::string &cls) {
  sim::NoPreempt np;
  SIM_CHECK(graph.n() == g.n, cls, sim::fmt("n = %lu, expected %zu", (unsigned long)graph.n(), g.n));
  SIM_CHECK(graph.m() == g.m(), cls, sim::fmt("m = %lu, expected %zu", (unsigned long)graph.m(), g.m()));
  SIM_CHECK(static_cast<i64>(graph.total_node_weight()) == g.total_vw(), cls,
            sim::fmt("total node weight %ld, expected %ld", (long)graph.total_node_weight(), (long)g.total_vw()));
  SIM_CHECK(static_cast<i64>(graph.total_edge_weight()) == g.total_ew(), cls,
            sim::fmt("total edge weight %ld, expected %ld", (long)graph.total_edge_weight(), (long)g.total_ew()));
  std::size_t max_degree = 0;
  for (std::size_t u = 0; u < g.n; ++u) max_degree = std::max(max_degree, g.deg(u));
  SIM_CHECK(graph.max_degree() == max_degree, cls, sim::fmt("maximum degree %lu, expected %zu", (unsigned long)graph.max_degree(), max_degree));
  if (g.n > 0)
    SIM_CHECK(static_cast<i64>(graph.max_node_weight()) == g.max_vw(), cls,
              sim::fmt("maximum node weight %ld, expected %ld", (long)graph.max_node_weight(), (long)g.max_vw()));
  for (std::size_t u = 0; u < g.n; ++u) {
    SIM_CHECK(static_cast<i64>(graph.node_weight(u)) == g.vw[u], cls,
              sim::fmt("weight of node %zu is %ld, expected %ld", u, (long)graph.node_weight(u), (long)g.vw[u]));
    SIM_CHECK(graph.degree(u) == g.deg(u), cls,
              sim::fmt("degree of node %zu is %lu, expected %zu", u, (unsigned long)graph.degree(u), g.deg(u)));
    std::vector<std::pair<std::size_t, i64>> a, b;
    graph.adjacent_nodes(u, [&](const NodeID v, const EdgeWeight w) { a.push_back({v, w}); });
    for (std::size_t e = g.xadj[u]; e < g.xadj[u + 1]; ++e) b.push_back({g.adj[e], g.ew[e]});
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    SIM_CHECK(a == b, cls, sim::fmt("neighborhood of node %zu differs (%zu vs %zu entries)", u, a.size(), b.size()));
  }
}

// Model graph of an arbitrary graph object.
template <typename GraphT> inline G model_of(const GraphT &graph) {
  sim::NoPreempt np;
  G g;
  g.n = graph.n();
  g.xadj.assign(1, 0);
  g.has_vw = g.has_ew = true;
  for (std::size_t u = 0; u < g.n; ++u) {
    g.vw.push_back(graph.node_weight(u));
    graph.adjacent_nodes(u, [&](const NodeID v, const EdgeWeight w) {
      g.adj.push_back(v);
      g.ew.push_back(w);
    });
    g.xadj.push_back(g.adj.size());
  }
  return g;
}
} // namespace su
