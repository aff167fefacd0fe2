// C30: distributed greedy colorings, independent border sets and border nodes.
#define DIST_UTIL_GRAPH
#include "dist.h"
#include "dist_util.h"

#include "kaminpar-dist/algorithms/border_nodes.h"
#include "kaminpar-dist/algorithms/greedy_node_coloring.h"
#include "kaminpar-dist/algorithms/independent_set.h"

#include "kaminpar-common/random.h"

#include <iostream>

using namespace dist_util;

namespace {
struct W : GraphJob {
  bool compressed = false;
  std::vector<int> supersteps;
  std::vector<int> seeds;
  unsigned k = 2;
  std::vector<unsigned> part;
  struct Colors {
    std::size_t n = 0;
    std::vector<std::uint64_t> color, ghosts;
  };
  std::vector<Colors> colors;
  std::vector<std::vector<std::uint64_t>> sets, border;
};
} // namespace

extern "C" {
sim::dist::Config dist_config = {200'000'000, "hang"};

void *dist_prepare() {
  auto *w = new W();
  gen::Opts o;
  o.max_n = sim::coin(0.2) ? 250 : 50;
  o.max_m = 5 * o.max_n;
  draw_graph_job(*w, 12, 3, o);
  const int max_supersteps = w->P() <= 4 ? 64 : 8;
  w->compressed = sim::coin(0.3);
  std::string what;
  for (int c = static_cast<int>(sim::range(1, 2)); c > 0; --c) {
    w->supersteps.push_back(static_cast<int>(sim::coin(0.1) ? sim::range(1, max_supersteps) : sim::range(1, 6)));
    what += sim::fmt(" %d", w->supersteps.back());
  }
  for (int c = static_cast<int>(sim::range(1, 3)); c > 0; --c) w->seeds.push_back(static_cast<int>(sim::range(0, 1 << 30)));
  w->k = static_cast<unsigned>(sim::range(1, 6));
  w->part = draw_partition(w->g, w->k);
  w->colors.resize(w->P());
  w->sets.resize(w->P());
  w->border.resize(w->P());
  sim::note(sim::fmt("%ssupersteps%s k %u sets %zu; %s", w->compressed ? "compressed " : "", what.c_str(), w->k, w->seeds.size(), describe(*w).c_str()));
  if (w->P() > 1 && w->g.n > 4 && w->g.m() > 0) {
    sim::mark_nontrivial();
  }
  return w;
}
int dist_ranks(void *w) { return static_cast<W *>(w)->b.n; }

void dist_rank(int r, void *wp) {
  W &w = *static_cast<W *>(wp);
  sim::tbb_configure(w.b.threads[r]);
  MPI_Comm comm = make_comm(w.b, r);
  const int i = w.b.index(r);
  if (i < 0) {
    return;
  }
  std::cout.setstate(std::ios::badbit);
  DistributedGraph graph = w.compressed ? build_compressed_graph(w.g, w.dist, comm) : build_graph(w.g, w.dist, comm);
  publish(w.views, i, view(graph), [&] { assemble(w.views, "input"); });
  for (int s : w.supersteps) {
    W::Colors c;
    c.n = graph.n();
    graph.reified([&](const auto &g) {
      const auto coloring = compute_node_coloring_sequentially(g, static_cast<NodeID>(s));
      SIM_CHECK(coloring.size() >= g.total_n(), "coloring", "size of the coloring");
      c.color.assign(coloring.begin(), coloring.begin() + g.total_n());
    });
    for (NodeID u = graph.n(); u < graph.total_n(); ++u) c.ghosts.push_back(graph.local_to_global_node(u));
    publish(w.colors, i, c, [&] {
      sim::NoPreempt np;
      std::vector<std::uint64_t> color(w.g.n);
      std::size_t max_degree = 0;
      for (int p = 0; p < w.P(); ++p)
        for (std::size_t u = 0; u < w.colors[p].n; ++u) color[w.dist[p] + u] = w.colors[p].color[u];
      for (std::size_t u = 0; u < w.g.n; ++u) max_degree = std::max(max_degree, w.g.xadj[u + 1] - w.g.xadj[u]);
      for (std::size_t u = 0; u < w.g.n; ++u) {
        if (color[u] > max_degree) sim::fail("coloring", sim::fmt("node %zu has color %lu, the maximum degree is %zu", u, (unsigned long)color[u], max_degree));
        for (std::size_t e = w.g.xadj[u]; e < w.g.xadj[u + 1]; ++e)
          if (color[u] == color[w.g.adj[e]]) sim::fail("coloring", sim::fmt("adjacent nodes %zu and %zu have color %lu", u, w.g.adj[e], (unsigned long)color[u]));
      }
      for (int p = 0; p < w.P(); ++p) {
        const auto &v = w.colors[p];
        for (std::size_t j = 0; j < v.ghosts.size(); ++j)
          if (v.color[v.n + j] != color[v.ghosts[j]])
            sim::fail("ghost-color", sim::fmt("process %d gives ghost node %lu color %lu, its owner %lu", p, (unsigned long)v.ghosts[j], (unsigned long)v.color[v.n + j],
                                              (unsigned long)color[v.ghosts[j]]));
      }
    });
  }
  {
    DistributedPartitionedGraph p_graph = make_pgraph(graph, w.part, w.k);
    std::vector<std::uint64_t> border;
    for (NodeID u : graph::find_border_nodes(p_graph)) border.push_back(graph.offset_n() + u);
    publish(w.border, i, border, [&] {
      sim::NoPreempt np;
      std::vector<std::uint64_t> got, expected;
      for (auto &b : w.border) got.insert(got.end(), b.begin(), b.end());
      std::sort(got.begin(), got.end());
      for (std::size_t u = 0; u < w.g.n; ++u) {
        bool b = false;
        for (std::size_t e = w.g.xadj[u]; e < w.g.xadj[u + 1]; ++e) b |= w.part[u] != w.part[w.g.adj[e]];
        if (b) expected.push_back(u);
      }
      if (got != expected) sim::fail("border-nodes", sim::fmt("%zu border nodes found, there are %zu", got.size(), expected.size()));
    });
    for (int seed : w.seeds) {
      std::vector<std::uint64_t> set;
      for (NodeID u : graph::find_independent_border_set(p_graph, seed)) {
        SIM_CHECK(u < graph.n(), "independent-set", "node of the set is not owned");
        set.push_back(graph.offset_n() + u);
      }
      publish(w.sets, i, set, [&] {
        sim::NoPreempt np;
        std::vector<bool> in(w.g.n, false);
        for (auto &s : w.sets)
          for (auto u : s) {
            if (in[u]) sim::fail("independent-set", sim::fmt("node %lu is in the set twice", (unsigned long)u));
            in[u] = true;
          }
        bool any_border = false;
        for (std::size_t u = 0; u < w.g.n; ++u) {
          bool b = false;
          for (std::size_t e = w.g.xadj[u]; e < w.g.xadj[u + 1]; ++e) {
            const std::size_t v = w.g.adj[e];
            b |= w.part[u] != w.part[v];
            if (in[u] && in[v]) sim::fail("independent-set", sim::fmt("adjacent nodes %zu and %zu are in the set", u, v));
          }
          any_border |= b;
          if (in[u] && !b) sim::fail("independent-set", sim::fmt("node %zu is no border node", u));
        }
        (void)any_border; // the set may be empty: a node without border is allowed to have the lowest score
      });
    }
  }
  sim::mpi::meet(w.P());
}

void dist_finish(void *) {}
}
