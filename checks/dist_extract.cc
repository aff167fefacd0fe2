// C29: extraction of block-induced subgraphs and breadth-first neighbourhoods of distributed graphs.
#define DIST_UTIL_GRAPH
#include "dist.h"
#include "dist_util.h"

#include "kaminpar-dist/graphutils/bfs_extractor.h"
#include "kaminpar-dist/graphutils/subgraph_extractor.h"

#include "kaminpar-shm/metrics.h"

#include <queue>

using namespace dist_util;

namespace {
struct Sub {
  std::vector<std::size_t> xadj{0}, adj;
  std::vector<i64> vw, ew;
  std::vector<std::size_t> offsets; // first node of every process
  std::vector<unsigned> part;       // partition computed for it
  i64 cut = 0;
};
struct Out {
  std::vector<Sub> subs;
  std::vector<std::size_t> mapping;
  PView before, after;
};
struct Bfs {
  std::vector<std::size_t> seeds; // global
  std::vector<std::uint64_t> nodes;
  std::vector<i64> vw;
  std::vector<unsigned> block;
  std::size_t n = 0;
  std::vector<std::vector<std::pair<std::size_t, i64>>> adj;
};
struct W : GraphJob {
  unsigned k = 1, mult = 2, seed = 0;
  bool copies_directly = false;
  std::vector<unsigned> part;
  std::vector<Out> out;
  // BFS
  bool run_bfs = false;
  int hops = 0, radius = -1;
  std::vector<std::vector<std::size_t>> seeds; // per process, global
  std::vector<Bfs> bfs;
};

template <typename SG> void read_graph(const SG &g, std::vector<std::size_t> &xadj, std::vector<std::size_t> &adj, std::vector<i64> &vw, std::vector<i64> &ew) {
  const auto &csr = g.csr_graph();
  for (NodeID u = 0; u < csr.n(); ++u) {
    vw.push_back(csr.node_weight(u));
    csr.adjacent_nodes(u, [&](const NodeID v, const i64 w) {
      adj.push_back(v);
      ew.push_back(w);
    });
    xadj.push_back(adj.size());
  }
}

void judge_extract(const W &w) {
  const int P = w.P();
  const G &g = w.g;
  std::vector<PView> before, after;
  for (const Out &o : w.out) {
    before.push_back(o.before);
    after.push_back(o.after);
  }
  check_partition(g, before, w.k, "before extraction");
  const graph::BlockExtractionOffsets offs(P, w.k);
  std::vector<std::size_t> block_size(w.k, 0);
  for (std::size_t u = 0; u < g.n; ++u) {
    ++block_size[w.part[u]];
  }
  // local position of every node within (its process, its block)
  std::vector<std::vector<std::map<std::size_t, std::size_t>>> node_at(P, std::vector<std::map<std::size_t, std::size_t>>(w.k));
  for (int r = 0; r < P; ++r) {
    for (std::size_t u = w.dist[r]; u < w.dist[r + 1]; ++u) {
      const std::size_t pos = w.out[r].mapping.at(u - w.dist[r]);
      if (!node_at[r][w.part[u]].insert({pos, u}).second) {
        sim::fail("node-mapping", sim::fmt("nodes %zu and %zu of block %u of process %d have the same position", u, node_at[r][w.part[u]][pos], w.part[u], r));
      }
    }
  }
  std::vector<int> copies(w.k, 0);
  std::vector<std::vector<unsigned>> best(w.k);                    // partition of the nodes of the block
  std::vector<std::vector<std::pair<i64, std::vector<std::pair<std::size_t, unsigned>>>>> choices(w.k);
  for (int r = 0; r < P; ++r) {
    const Out &o = w.out[r];
    const unsigned first = offs.first_block_on_pe(r);
    for (std::size_t i = 0; i < o.subs.size(); ++i) {
      const unsigned b = first + static_cast<unsigned>(i);
      const Sub &s = o.subs[i];
      const auto who = sim::fmt("subgraph %zu of process %d (block %u)", i, r, b);
      if (b >= w.k) sim::fail("subgraph", who + ": no such block");
      ++copies[b];
      const std::size_t n = s.vw.size();
      if (n != block_size[b]) sim::fail("subgraph", who + sim::fmt(": %zu nodes, the block has %zu", n, block_size[b]));
      if (s.offsets.size() != static_cast<std::size_t>(P) + 1 || s.offsets.front() != 0 || s.offsets.back() != n) sim::fail("subgraph", who + ": offsets");
      std::vector<std::size_t> orig(n);
      std::map<std::size_t, std::size_t> pos;
      for (int p = 0; p < P; ++p) {
        if (s.offsets[p + 1] - s.offsets[p] != node_at[p][b].size()) sim::fail("subgraph", who + sim::fmt(": nodes of process %d", p));
        for (std::size_t x = s.offsets[p]; x < s.offsets[p + 1]; ++x) {
          auto it = node_at[p][b].find(x - s.offsets[p]);
          if (it == node_at[p][b].end()) sim::fail("node-mapping", who + sim::fmt(": no node at position %zu", x));
          orig[x] = it->second;
          pos[it->second] = x;
        }
      }
      for (std::size_t x = 0; x < n; ++x) {
        const std::size_t u = orig[x];
        if (s.vw[x] != g.vw[u]) sim::fail("subgraph", who + sim::fmt(": node %zu has weight %ld instead of %ld", u, (long)s.vw[x], (long)g.vw[u]));
        std::vector<std::pair<std::size_t, i64>> want, got;
        for (std::size_t e = g.xadj[u]; e < g.xadj[u + 1]; ++e) {
          if (w.part[g.adj[e]] == b) want.push_back({g.adj[e], g.ew[e]});
        }
        for (std::size_t e = s.xadj[x]; e < s.xadj[x + 1]; ++e) {
          if (s.adj[e] >= n) sim::fail("subgraph", who + ": edge target");
          got.push_back({orig[s.adj[e]], s.ew[e]});
        }
        std::sort(want.begin(), want.end());
        std::sort(got.begin(), got.end());
        if (want != got) sim::fail("subgraph", who + sim::fmt(": edges of node %zu", u));
      }
      std::vector<std::pair<std::size_t, unsigned>> c;
      for (std::size_t x = 0; x < n; ++x) c.push_back({orig[x], s.part[x]});
      choices[b].push_back({s.cut, std::move(c)});
    }
  }
  for (unsigned b = 0; b < w.k; ++b) {
    const int want = P <= static_cast<int>(w.k) ? 1 : 0;
    if (copies[b] == 0 || (want == 1 && copies[b] != 1)) sim::fail("subgraph", sim::fmt("block %u is on %d processes", b, copies[b]));
  }
  const auto part = check_partition(g, after, w.k * w.mult, "after copying the partitions back");
  for (unsigned b = 0; b < w.k; ++b) {
    i64 min_cut = choices[b][0].first;
    for (auto &c : choices[b]) min_cut = std::min(min_cut, c.first);
    bool found = false;
    std::string msg;
    for (auto &[cut, c] : choices[b]) {
      if (cut != min_cut) continue;
      bool ok = true;
      for (auto &[u, x] : c) {
        if (part[u] != b * w.mult + x) {
          ok = false;
          msg = sim::fmt("node %zu of block %u was assigned sub-block %u but is in block %u", u, b, x, part[u]);
        }
      }
      found = found || ok;
    }
    if (!found) sim::fail("copied-partition", msg);
  }
}

void judge_bfs(const W &w) {
  const G &g = w.g;
  for (int r = 0; r < w.P(); ++r) {
    const Bfs &o = w.bfs[r];
    const auto who = sim::fmt("search of process %d", r);
    // distances from the seed nodes
    std::vector<int> d(g.n, -1);
    std::queue<std::size_t> q;
    for (auto s : w.seeds[r]) {
      if (d[s] < 0) {
        d[s] = 0;
        q.push(s);
      }
    }
    while (!q.empty()) {
      const auto u = q.front();
      q.pop();
      for (std::size_t e = g.xadj[u]; e < g.xadj[u + 1]; ++e) {
        if (d[g.adj[e]] < 0) {
          d[g.adj[e]] = d[u] + 1;
          q.push(g.adj[e]);
        }
      }
    }
    if (o.n != o.nodes.size() + w.k) sim::fail("bfs", who + ": number of nodes");
    // CSRGraph takes a graph whose total weight equals its number of nodes as unweighted; this holds for
    // positive weights, but the pseudo nodes have weight 0
    i64 total = 0;
    for (auto u : o.nodes) total += u < g.n ? g.vw[u] : 0;
    const bool weighted = total != static_cast<i64>(o.n);
    std::set<std::uint64_t> all(o.nodes.begin(), o.nodes.end());
    if (all.size() != o.nodes.size()) sim::fail("bfs", who + ": node twice");
    for (auto s : w.seeds[r]) {
      if (!all.count(s)) sim::fail("bfs", who + sim::fmt(": seed node %zu is missing", s));
    }
    for (std::size_t x = 0; x < o.n; ++x) {
      if (x >= o.nodes.size()) {
        if (o.block[x] != x - o.nodes.size()) sim::fail("bfs", who + ": block of a pseudo node");
        continue;
      }
      const auto u = o.nodes[x];
      if (u >= g.n) sim::fail("bfs", who + ": node does not exist");
      if (d[u] < 0 || (w.radius >= 0 && d[u] > w.radius)) sim::fail("bfs", who + sim::fmt(": node %lu is not within reach", (unsigned long)u));
      if (weighted && o.vw[x] != g.vw[u]) sim::fail("bfs", who + ": node weight");
      if (o.block[x] != w.part[u]) sim::fail("bfs", who + sim::fmt(": node %lu is in block %u, not %u", (unsigned long)u, w.part[u], o.block[x]));
      std::map<std::size_t, i64> real;
      std::vector<i64> to_block(w.k, 0), want(w.k, 0);
      for (auto &[y, ew] : o.adj[x]) {
        if (y >= o.n) sim::fail("bfs", who + ": edge target");
        if (y >= o.nodes.size()) {
          to_block[y - o.nodes.size()] += ew;
        } else if (!real.insert({o.nodes[y], ew}).second) {
          sim::fail("bfs", who + ": edge twice");
        }
      }
      for (std::size_t e = g.xadj[u]; e < g.xadj[u + 1]; ++e) {
        auto it = real.find(g.adj[e]);
        if (it != real.end()) {
          if (it->second != g.ew[e]) sim::fail("bfs", who + ": edge weight");
          real.erase(it);
        } else {
          want[w.part[g.adj[e]]] += g.ew[e];
        }
      }
      if (!real.empty()) sim::fail("bfs", who + sim::fmt(": edge %lu %zu does not exist", (unsigned long)u, real.begin()->first));
      if (to_block != want) sim::fail("bfs", who + sim::fmt(": weights of the edges of node %lu to the exterior", (unsigned long)u));
    }
  }
}
} // namespace

extern "C" {
sim::dist::Config dist_config = {20'000'000, "hang"};

void *dist_prepare() {
  auto *w = new W();
  gen::Opts o;
  o.max_n = sim::coin(0.2) ? 120 : 40;
  o.max_m = 3 * o.max_n;
  draw_graph_job(*w, 9, 3, o);
  w->k = static_cast<unsigned>(sim::range(1, sim::coin(0.3) ? 20 : 6));
  w->mult = static_cast<unsigned>(sim::range(1, 4));
  w->seed = static_cast<unsigned>(sim::range(0, 1 << 20));
  w->part = draw_partition(w->g, w->k);
  w->out.resize(w->P());
  w->run_bfs = sim::coin(0.2);
  if (w->run_bfs) {
    w->hops = static_cast<int>(sim::coin(0.05) ? 2 : sim::range(0, 1));
    w->radius = sim::coin() ? static_cast<int>(sim::range(0, 5)) : -1;
    w->bfs.resize(w->P());
    for (int r = 0; r < w->P(); ++r) {
      std::vector<std::size_t> s;
      const std::size_t n = w->dist[r + 1] - w->dist[r];
      if (n > 0) {
        for (int c = static_cast<int>(sim::range(0, 3)); c > 0; --c) {
          s.push_back(w->dist[r] + sim::range(0, n - 1));
        }
      }
      std::sort(s.begin(), s.end());
      s.erase(std::unique(s.begin(), s.end()), s.end());
      w->seeds.push_back(s);
    }
  }
  sim::note(sim::fmt("%s k=%u x %u; %s", !w->run_bfs ? "blocks" : w->hops > 1 ? "search case:bfs-two-hops" : "search", w->k, w->mult, describe(*w).c_str()));
  if (w->P() > 1 && w->g.n > 4 && w->g.m() > 0 && w->k > 1) {
    sim::mark_nontrivial();
  }
  return w;
}
int dist_ranks(void *w) { return static_cast<W *>(w)->b.n; }

void dist_rank(int r, void *wp) {
  W &w = *static_cast<W *>(wp);
  sim::tbb_configure(w.b.threads[r]);
  MPI_Comm comm = make_comm(w.b, r);
  const int i = w.b.index(r);
  if (i < 0) {
    return;
  }
  DistributedGraph graph = build_graph(w.g, w.dist, comm);
  publish(w.views, i, view(graph), [&] { assemble(w.views, "input"); });
  DistributedPartitionedGraph p_graph = make_pgraph(graph, w.part, w.k);

  if (w.run_bfs) {
    graph::BfsExtractor extractor(graph);
    extractor.initialize(p_graph);
    extractor.set_max_hops(w.hops);
    if (w.radius >= 0) {
      extractor.set_max_radius(w.radius);
    }
    std::vector<NodeID> seeds;
    for (auto s : w.seeds[i]) {
      seeds.push_back(static_cast<NodeID>(s - w.dist[i]));
    }
    auto res = extractor.extract(seeds);
    Bfs b;
    b.n = res.graph->n();
    b.nodes.assign(res.node_mapping.begin(), res.node_mapping.end());
    b.adj.resize(b.n);
    const auto &csr = res.graph->csr_graph();
    for (NodeID u = 0; u < csr.n(); ++u) {
      b.vw.push_back(csr.node_weight(u));
      b.block.push_back(res.p_graph->block(u));
      csr.adjacent_nodes(u, [&](const NodeID v, const i64 ew) { b.adj[u].push_back({v, ew}); });
    }
    publish(w.bfs, i, std::move(b), [&] { judge_bfs(w); });
    return;
  }

  Out o;
  o.before = pview(p_graph);
  auto res = graph::extract_and_scatter_block_induced_subgraphs(p_graph);
  std::vector<shm::PartitionedGraph> p_subs;
  for (std::size_t s = 0; s < res.subgraphs.size(); ++s) {
    const shm::Graph &sg = res.subgraphs[s];
    Sub sub;
    read_graph(sg, sub.xadj, sub.adj, sub.vw, sub.ew);
    sub.offsets.assign(res.subgraph_offsets[s].begin(), res.subgraph_offsets[s].end());
    StaticArray<BlockID> part(sg.n());
    for (NodeID u = 0; u < sg.n(); ++u) {
      part[u] = ((u + 1) * 2654435761u + 97 * (w.seed + 31 * i + 7 * s)) / 64 % w.mult;
      sub.part.push_back(part[u]);
    }
    p_subs.emplace_back(sg, w.mult, std::move(part));
    sub.cut = shm::metrics::edge_cut(p_subs.back());
    o.subs.push_back(std::move(sub));
  }
  o.mapping.assign(res.mapping.begin(), res.mapping.end());
  DistributedPartitionedGraph q_graph = graph::copy_subgraph_partitions(std::move(p_graph), p_subs, res);
  o.after = pview(q_graph);
  publish(w.out, i, std::move(o), [&] { judge_extract(w); });
}
void dist_finish(void *) {}
}
