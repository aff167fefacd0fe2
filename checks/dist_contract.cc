// C25: contraction of clusterings of distributed graphs, over several levels, and projection of partitions.
#define DIST_UTIL_GRAPH
#include "dist.h"
#include "dist_util.h"

#include "kaminpar-dist/coarsening/contraction/global_cluster_contraction.h"
#include "kaminpar-dist/coarsening/contraction/local_cluster_contraction.h"

using namespace dist_util;

namespace {
struct Level {
  bool local = false;
  int shape = 0;
  std::uint64_t salt = 0;
  std::size_t clusters = 1;
  int hot = 0;
  double max_imbalance = 1e9;
  bool prefix = false, perfect = true;
};
struct W : GraphJob {
  bool compressed = false;
  std::vector<Level> levels;
  unsigned k = 1;
  std::vector<unsigned> cpart; // blocks of coarse nodes (by global id, cyclic)
  // state shared by the processes, written by process 0 between two meetings
  G cur;
  std::vector<std::size_t> cur_dist;
  std::vector<std::size_t> clustering;
  bool stop = false;
  std::vector<std::vector<std::size_t>> map; // coarse node of every owned and ghost node, per process
  std::vector<std::vector<unsigned>> proj;
};

std::uint64_t mix(std::uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}

// The clustering of the current graph: ids in [0, n), local: in the range of the owner of the node.
void make_clustering(W &w, const Level &l) {
  sim::NoPreempt np;
  const std::size_t n = w.cur.n;
  const int P = w.P();
  w.clustering.assign(n, 0);
  const auto owner = [&](std::size_t u) {
    int p = 0;
    while (u >= w.cur_dist[p + 1]) ++p;
    return p;
  };
  for (std::size_t u = 0; u < n; ++u) {
    const std::uint64_t h = mix(l.salt + u);
    std::size_t c = u;
    switch (l.shape) {
    case 0: c = mix(l.salt ^ (h % l.clusters)) % n; break; // few clusters anywhere
    case 1: c = u; break;                                  // singletons
    case 2:                                                // a neighbour or the node itself
      if (w.cur.xadj[u + 1] > w.cur.xadj[u]) c = w.cur.adj[w.cur.xadj[u] + h % (w.cur.xadj[u + 1] - w.cur.xadj[u])];
      if (h >> 40 & 1) c = u;
      break;
    case 3: c = l.salt % n; break; // one cluster
    case 4: {                      // ids of one process only
      const std::size_t a = w.cur_dist[l.hot], b = w.cur_dist[l.hot + 1];
      c = b > a ? a + h % (b - a) : l.salt % n;
      break;
    }
    case 5: c = h % n; break; // random ids
    case 6: c = u / (1 + l.clusters) * (1 + l.clusters); break; // runs of nodes
    }
    if (l.local) {
      const int p = owner(u);
      const std::size_t a = w.cur_dist[p], b = w.cur_dist[p + 1];
      c = a + c % (b - a);
    }
    w.clustering[u] = c;
  }
  (void)P;
}

void judge_level(W &w, std::size_t lv) {
  const Level &l = w.levels[lv];
  const auto what = sim::fmt("level %zu (%s)", lv, l.local ? "local" : "global");
  G coarse = assemble(w.views, what);
  sim::NoPreempt np;
  check_simple(coarse, what);
  const int P = w.P();
  // the mapping
  const std::size_t n = w.cur.n;
  std::vector<std::size_t> map(n);
  for (int p = 0; p < P; ++p) {
    for (std::size_t u = w.cur_dist[p]; u < w.cur_dist[p + 1]; ++u) map[u] = w.map[p][u - w.cur_dist[p]];
  }
  std::map<std::size_t, std::size_t> c2n;
  std::vector<std::size_t> leader(coarse.n, n);
  for (std::size_t u = 0; u < n; ++u) {
    if (map[u] >= coarse.n) sim::fail("projection", what + sim::fmt(": node %zu is projected to coarse node %zu of %zu", u, map[u], coarse.n));
    auto [it, fresh] = c2n.insert({w.clustering[u], map[u]});
    if (it->second != map[u]) sim::fail("projection", what + sim::fmt(": nodes of cluster %zu belong to coarse nodes %zu and %zu", w.clustering[u], it->second, map[u]));
    if (fresh) {
      if (leader[map[u]] != n) sim::fail("projection", what + sim::fmt(": coarse node %zu belongs to two clusters", map[u]));
      leader[map[u]] = u;
    }
  }
  if (c2n.size() != coarse.n) sim::fail("quotient", what + sim::fmt(": %zu coarse nodes for %zu clusters", coarse.n, c2n.size()));
  // the quotient graph
  std::vector<i64> vw(coarse.n, 0);
  std::vector<std::map<std::size_t, i64>> adj(coarse.n);
  for (std::size_t u = 0; u < n; ++u) {
    vw[map[u]] += w.cur.vw[u];
    for (std::size_t e = w.cur.xadj[u]; e < w.cur.xadj[u + 1]; ++e) {
      if (map[w.cur.adj[e]] != map[u]) adj[map[u]][map[w.cur.adj[e]]] += w.cur.ew[e];
    }
  }
  for (std::size_t c = 0; c < coarse.n; ++c) {
    if (coarse.vw[c] != vw[c]) sim::fail("quotient", what + sim::fmt(": coarse node %zu has weight %ld instead of %ld", c, (long)coarse.vw[c], (long)vw[c]));
    std::map<std::size_t, i64> got;
    for (std::size_t e = coarse.xadj[c]; e < coarse.xadj[c + 1]; ++e) got[coarse.adj[e]] = coarse.ew[e];
    if (got != adj[c]) {
      std::string m;
      for (auto &[x, y] : adj[c]) if (!got.count(x) || got[x] != y) m = sim::fmt("edge to %zu has weight %ld instead of %ld", x, (long)(got.count(x) ? got[x] : 0), (long)y);
      if (m.empty()) m = "additional edges";
      sim::fail("quotient", what + sim::fmt(": coarse node %zu: ", c) + m);
    }
  }
  // projection to owned and ghost nodes
  for (int p = 0; p < P; ++p) {
    const std::size_t own = w.cur_dist[p + 1] - w.cur_dist[p];
    for (std::size_t i = 0; i < w.map[p].size(); ++i) {
      if (w.proj[p][i] != w.cpart[w.map[p][i] % w.cpart.size()]) sim::fail("projection", what + sim::fmt(": process %d, local node %zu: block", p, i));
    }
    (void)own;
  }
  // next level
  w.cur = std::move(coarse);
  w.cur_dist.assign(w.views[0].node_dist.begin(), w.views[0].node_dist.end());
  w.stop = w.cur.n == 0;
}
} // namespace

extern "C" {
sim::dist::Config dist_config = {30'000'000, "hang"};

void *dist_prepare() {
  auto *w = new W();
  gen::Opts o;
  o.max_n = sim::coin(0.2) ? 250 : 40;
  o.max_m = 4 * o.max_n;
  draw_graph_job(*w, 9, 3, o);
  w->compressed = sim::coin(0.3);
  w->k = static_cast<unsigned>(sim::range(1, 9));
  for (int i = 0; i < 61; ++i) w->cpart.push_back(static_cast<unsigned>(sim::choose(sim::K_WORK, w->k)));
  std::string what;
  for (int c = static_cast<int>(sim::range(1, 4)); c > 0; --c) {
    Level l;
    l.local = sim::coin(0.2);
    l.shape = static_cast<int>(sim::choose(sim::K_WORK, 7));
    l.salt = sim::range(0, 1 << 30);
    l.clusters = sim::range(1, 12);
    l.hot = static_cast<int>(sim::choose(sim::K_WORK, w->P()));
    const double im[] = {1e9, 1.0, 1.01, 1.1, 1.5, 2.0};
    l.max_imbalance = im[sim::choose(sim::K_WORK, 6)];
    l.prefix = sim::coin();
    l.perfect = sim::coin();
    what += sim::fmt(" %s shape %d imbalance %.2f%s%s,", l.local ? "local" : "global", l.shape, l.max_imbalance, l.prefix ? " prefix" : "", l.perfect ? " perfect" : "");
    w->levels.push_back(l);
  }
  w->cur = w->g;
  w->cur_dist = w->dist;
  w->map.resize(w->P());
  w->proj.resize(w->P());
  sim::note(sim::fmt("%s%s;%s", w->compressed ? "compressed; " : "", describe(*w).c_str(), what.c_str()));
  if (w->P() > 1 && w->g.n > 4 && w->g.m() > 0) {
    sim::mark_nontrivial();
  }
  return w;
}
int dist_ranks(void *w) { return static_cast<W *>(w)->b.n; }

void dist_rank(int r, void *wp) {
  W &w = *static_cast<W *>(wp);
  sim::tbb_configure(w.b.threads[r]);
  MPI_Comm comm = make_comm(w.b, r);
  const int i = w.b.index(r);
  if (i < 0) {
    return;
  }
  DistributedGraph input = w.compressed ? build_compressed_graph(w.g, w.dist, comm) : build_graph(w.g, w.dist, comm);
  publish(w.views, i, view(input), [&] { assemble(w.views, "input"); });
  std::vector<std::unique_ptr<CoarseGraph>> hierarchy;
  const DistributedGraph *graph = &input;
  for (std::size_t lv = 0; lv < w.levels.size(); ++lv) {
    const Level &l = w.levels[lv];
    sim::mpi::meet(w.P());
    if (i == 0) {
      make_clustering(w, l);
    }
    sim::mpi::meet(w.P());
    std::unique_ptr<CoarseGraph> c;
    if (l.local) {
      StaticArray<NodeID> clustering(graph->n());
      for (NodeID u = 0; u < graph->n(); ++u) {
        clustering[u] = static_cast<NodeID>(w.clustering[graph->offset_n() + u] - graph->offset_n());
      }
      c = contract_local_clustering(*graph, clustering);
    } else {
      StaticArray<GlobalNodeID> clustering(graph->total_n());
      for (NodeID u = 0; u < graph->total_n(); ++u) {
        clustering[u] = w.clustering[graph->local_to_global_node(u)];
      }
      c = contract_clustering(*graph, clustering, l.max_imbalance, l.prefix, l.perfect);
    }
    const DistributedGraph &cg = c->get();
    // project the global ids of the coarse nodes, then blocks
    StaticArray<BlockID> ids(cg.total_n()), blocks(cg.total_n()), f_ids(graph->total_n()), f_blocks(graph->total_n());
    for (NodeID u = 0; u < cg.total_n(); ++u) {
      ids[u] = static_cast<BlockID>(cg.local_to_global_node(u));
      blocks[u] = w.cpart[ids[u] % w.cpart.size()];
    }
    c->project(ids, f_ids);
    c->project(blocks, f_blocks);
    w.map[i].assign(f_ids.begin(), f_ids.end());
    w.proj[i].assign(f_blocks.begin(), f_blocks.end());
    publish(w.views, i, view(cg), [&] {
      for (int p = 0; p < w.P(); ++p) SIM_CHECK(w.map[p].size() >= w.cur_dist[p + 1] - w.cur_dist[p], "simulator-error", "mapping");
    });
    // ghost nodes are projected like their owners say
    for (NodeID u = graph->n(); u < graph->total_n(); ++u) {
      const GlobalNodeID g = graph->local_to_global_node(u);
      int p = 0;
      while (g >= w.cur_dist[p + 1]) ++p;
      SIM_CHECK(w.map[p][g - w.cur_dist[p]] == f_ids[u], "projection",
                sim::fmt("level %zu: process %d projects ghost node %lu to coarse node %u, its owner to %zu", lv, i, (unsigned long)g, f_ids[u],
                         w.map[p][g - w.cur_dist[p]]));
    }
    sim::mpi::meet(w.P());
    if (i == 0) {
      judge_level(w, lv);
    }
    sim::mpi::meet(w.P());
    if (w.stop) {
      break;
    }
    hierarchy.push_back(std::move(c));
    graph = &hierarchy.back()->get();
  }
}

void dist_finish(void *) {}
}
