// Shared by the distributed checks: workloads, building distributed graphs, recording the local views
// of all processes and judging them against the global graph.
#pragma once
#include "graphs.h"
#include "mpi_rt.h"
#include "sim.h"

#include <algorithm>
#include <cstring>
#include <numeric>
#include <string>
#include <tuple>
#include <vector>

namespace dist_util {
inline void draw_threads(std::vector<int> &threads, int n, int max) {
  // at most 60 simulated threads in total
  max = std::min(max, std::max(1, 56 / n - 1));
  const bool uneven = sim::coin(0.3);
  const int t = static_cast<int>(sim::range(1, max));
  for (int i = 0; i < n; ++i) {
    threads.push_back(uneven ? static_cast<int>(sim::range(1, max)) : t);
  }
}

// A distribution of n nodes over p processes.
inline std::vector<std::size_t> draw_distribution(std::size_t n, int p) {
  std::vector<std::size_t> d(p + 1, 0);
  d[p] = n;
  switch (sim::choose(sim::K_WORK, 4)) {
  case 0: // balanced
  case 1:
    for (int i = 1; i < p; ++i) {
      d[i] = n * i / p;
    }
    break;
  case 2: // arbitrary cuts, processes without nodes
    for (int i = 1; i < p; ++i) {
      d[i] = sim::range(0, n);
    }
    std::sort(d.begin(), d.end());
    break;
  case 3: { // one process has almost everything
    const int big = static_cast<int>(sim::choose(sim::K_WORK, p));
    std::size_t rest = n;
    std::vector<std::size_t> c(p, 0);
    for (int i = 0; i < p; ++i) {
      if (i != big) {
        c[i] = std::min<std::size_t>(rest, sim::range(0, 1));
        rest -= c[i];
      }
    }
    c[big] = rest;
    for (int i = 0; i < p; ++i) {
      d[i + 1] = d[i] + c[i];
    }
    break;
  }
  }
  return d;
}

struct Base {
  int n = 1;                // processes in the world
  std::vector<int> threads; // simulated threads of every process
  bool sub = false;         // the job runs on a sub-communicator (the others do nothing)
  std::vector<int> member;  // member[i]: world rank of process i of the job
  int P() const { return static_cast<int>(member.size()); }
  int index(int world) const {
    for (std::size_t i = 0; i < member.size(); ++i) {
      if (member[i] == world) {
        return static_cast<int>(i);
      }
    }
    return -1;
  }
};

inline void draw_base(Base &b, int max_ranks, int max_threads, double p_sub = 0.15) {
  b.n = static_cast<int>(sim::range(1, max_ranks));
  if (sim::coin(0.3)) {
    b.n = std::max(b.n, static_cast<int>(sim::range(1, max_ranks)));
  }
  draw_threads(b.threads, b.n, max_threads);
  b.sub = b.n > 1 && sim::coin(p_sub);
  for (int i = 0; i < b.n; ++i) {
    b.member.push_back(i);
  }
  if (b.sub) {
    for (int i = b.n - 1; i > 0; --i) {
      std::swap(b.member[i], b.member[sim::choose(sim::K_WORK, i + 1)]);
    }
    b.member.resize(sim::range(1, b.n));
  }
  if (sim::coin(0.3)) {
    sim::faults.stall_rank = 0.02;
  }
}
} // namespace dist_util

#ifdef DIST_UTIL_GRAPH
#include "kaminpar-mpi/datatype.h"
#include "kaminpar-mpi/wrapper.h"

#include "kaminpar-dist/datastructures/distributed_compressed_graph.h"
#include "kaminpar-dist/datastructures/distributed_csr_graph.h"
#include "kaminpar-dist/datastructures/distributed_graph.h"
#include "kaminpar-dist/datastructures/distributed_partitioned_graph.h"
#include "kaminpar-dist/datastructures/ghost_node_mapper.h"
#include "kaminpar-dist/graphutils/synchronization.h"

#include "kaminpar-common/graph_compression/compressed_neighborhoods_builder.h"

#include <set>

namespace dist_util {
using namespace kaminpar;
using namespace kaminpar::dist;
using gen::G;
using gen::i64;
namespace kmpi = kaminpar::mpi;

inline MPI_Comm make_comm(const Base &b, int world) {
  if (!b.sub) {
    return MPI_COMM_WORLD;
  }
  MPI_Comm c;
  const int i = b.index(world);
  MPI_Comm_split(MPI_COMM_WORLD, i >= 0 ? 0 : MPI_UNDEFINED, i >= 0 ? i : 0, &c);
  return c;
}

// As dKaMinPar::import_graph() does it.
inline DistributedGraph build_graph(const G &g, const std::vector<std::size_t> &dist, MPI_Comm comm) {
  const PEID size = kmpi::get_comm_size(comm);
  const PEID rank = kmpi::get_comm_rank(comm);
  const std::size_t from = dist[rank], to = dist[rank + 1];
  const NodeID n = to - from;
  StaticArray<GlobalNodeID> node_distribution(size + 1);
  StaticArray<GlobalEdgeID> edge_distribution(size + 1);
  for (int i = 0; i <= size; ++i) {
    node_distribution[i] = dist[i];
    edge_distribution[i] = g.xadj[dist[i]];
  }
  StaticArray<EdgeID> nodes(n + 1);
  const EdgeID m = g.xadj[to] - g.xadj[from];
  StaticArray<NodeID> edges(m);
  StaticArray<EdgeWeight> edge_weights;
  StaticArray<NodeWeight> node_weights;
  graph::GhostNodeMapper mapper(rank, node_distribution);
  for (NodeID u = 0; u <= n; ++u) {
    nodes[u] = g.xadj[from + u] - g.xadj[from];
  }
  for (EdgeID e = 0; e < m; ++e) {
    const std::size_t v = g.adj[g.xadj[from] + e];
    edges[e] = v >= from && v < to ? static_cast<NodeID>(v - from) : mapper.new_ghost_node(v);
  }
  if (g.has_ew) {
    edge_weights.resize(m);
    for (EdgeID e = 0; e < m; ++e) {
      edge_weights[e] = g.ew[g.xadj[from] + e];
    }
  }
  if (g.has_vw) {
    node_weights.resize(n + mapper.next_ghost_node());
    for (NodeID u = 0; u < n; ++u) {
      node_weights[u] = g.vw[from + u];
    }
  }
  auto [global_to_ghost, ghost_to_global, ghost_owner] = mapper.finalize();
  DistributedGraph graph(std::make_unique<DistributedCSRGraph>(
      std::move(node_distribution), std::move(edge_distribution), std::move(nodes), std::move(edges),
      std::move(node_weights), std::move(edge_weights), std::move(ghost_owner), std::move(ghost_to_global),
      std::move(global_to_ghost), false, comm));
  if (g.has_vw) {
    graph::synchronize_ghost_node_weights(graph);
  }
  return graph;
}

// As the distributed METIS reader builds a compressed graph.
inline DistributedGraph build_compressed_graph(const G &g, const std::vector<std::size_t> &dist, MPI_Comm comm) {
  const PEID size = kmpi::get_comm_size(comm);
  const PEID rank = kmpi::get_comm_rank(comm);
  const std::size_t from = dist[rank], to = dist[rank + 1];
  const NodeID n = to - from;
  StaticArray<GlobalNodeID> node_distribution(size + 1);
  StaticArray<GlobalEdgeID> edge_distribution(size + 1);
  for (int i = 0; i <= size; ++i) {
    node_distribution[i] = dist[i];
    edge_distribution[i] = g.xadj[dist[i]];
  }
  CompactGhostNodeMappingBuilder mapper(rank, node_distribution);
  CompressedNeighborhoodsBuilder<NodeID, EdgeID, EdgeWeight> builder(n, g.xadj[to] - g.xadj[from], g.has_ew);
  std::vector<std::pair<NodeID, EdgeWeight>> neighbourhood;
  for (NodeID u = 0; u < n; ++u) {
    for (std::size_t e = g.xadj[from + u]; e < g.xadj[from + u + 1]; ++e) {
      const std::size_t v = g.adj[e];
      const NodeID x = v >= from && v < to ? static_cast<NodeID>(v - from) : mapper.new_ghost_node(v);
      neighbourhood.emplace_back(x, static_cast<EdgeWeight>(g.ew[e]));
    }
    builder.add(u, neighbourhood);
    neighbourhood.clear();
  }
  StaticArray<NodeWeight> node_weights;
  if (g.has_vw) {
    node_weights.resize(mapper.next_ghost_node());
    for (NodeID u = 0; u < n; ++u) {
      node_weights[u] = g.vw[from + u];
    }
  }
  DistributedGraph graph(std::make_unique<DistributedCompressedGraph>(
      std::move(node_distribution), std::move(edge_distribution), builder.build(), std::move(node_weights),
      mapper.finalize(), false, comm));
  if (g.has_vw) {
    graph::synchronize_ghost_node_weights(graph);
  }
  return graph;
}

// What one process knows about the distributed graph.
struct View {
  int size = 0, rank = 0;
  std::uint64_t global_n = 0, global_m = 0, offset_n = 0, offset_m = 0;
  std::size_t n = 0, m = 0, ghost_n = 0;
  std::vector<std::uint64_t> node_dist, edge_dist;
  std::vector<i64> vw;                  // owned and ghost nodes
  std::vector<std::uint64_t> ghosts;    // global ids
  std::vector<int> ghost_owner;
  std::vector<std::vector<std::pair<std::uint64_t, i64>>> adj; // global neighbour, weight
  std::vector<std::size_t> degree;
  std::vector<std::uint64_t> cut_to_pe, vol_to_pe;
  i64 total_vw = 0, max_vw = 0, global_max_vw = 0, global_total_vw = 0, total_ew = 0, global_total_ew = 0;
  std::vector<std::size_t> perm; // original local node -> local node
  bool sorted = false;
};

template <typename Graph> View view(const Graph &g) {
  View v;
  v.size = kmpi::get_comm_size(g.communicator());
  v.rank = kmpi::get_comm_rank(g.communicator());
  v.global_n = g.global_n();
  v.global_m = g.global_m();
  v.offset_n = g.offset_n();
  v.offset_m = g.offset_m();
  v.n = g.n();
  v.m = g.m();
  v.ghost_n = g.ghost_n();
  v.sorted = g.sorted();
  v.node_dist.assign(g.node_distribution().begin(), g.node_distribution().end());
  v.edge_dist.assign(g.edge_distribution().begin(), g.edge_distribution().end());
  SIM_CHECK(v.n + v.ghost_n == g.total_n(), "local-view", "total_n is not n + ghost_n");
  for (std::size_t u = 0; u < v.n + v.ghost_n; ++u) {
    v.vw.push_back(g.node_weight(u));
    const GlobalNodeID gu = g.local_to_global_node(u);
    SIM_CHECK(g.is_owned_node(u) == (u < v.n) && g.is_ghost_node(u) == (u >= v.n), "local-view", "ownership");
    SIM_CHECK(g.contains_global_node(gu) && g.global_to_local_node(gu) == u, "id-mapping",
              sim::fmt("local node %zu maps to global node %lu and back to %lu", u, (unsigned long)gu,
                       (unsigned long)(g.contains_global_node(gu) ? g.global_to_local_node(gu) : -1)));
    if (u >= v.n) {
      v.ghosts.push_back(gu);
      v.ghost_owner.push_back(g.ghost_owner(u));
    } else {
      SIM_CHECK(gu == v.offset_n + u, "id-mapping", "global id of an owned node");
    }
  }
  v.adj.resize(v.n);
  for (std::size_t u = 0; u < v.n; ++u) {
    v.degree.push_back(g.degree(u));
    g.adjacent_nodes(u, [&](const NodeID x, const EdgeWeight w) {
      SIM_CHECK(x < v.n + v.ghost_n, "local-view", sim::fmt("neighbour %u of node %zu out of range", x, u));
      v.adj[u].push_back({g.local_to_global_node(x), w});
    });
  }
  for (int pe = 0; pe < v.size; ++pe) {
    v.cut_to_pe.push_back(g.edge_cut_to_pe(pe));
    v.vol_to_pe.push_back(g.comm_vol_to_pe(pe));
  }
  v.total_vw = g.total_node_weight();
  v.max_vw = g.max_node_weight();
  v.global_max_vw = g.global_max_node_weight();
  v.global_total_vw = g.global_total_node_weight();
  v.total_ew = g.total_edge_weight();
  v.global_total_ew = g.global_total_edge_weight();
  if (g.permuted()) {
    for (std::size_t u = 0; u < v.n; ++u) {
      v.perm.push_back(g.map_original_node(u));
    }
  }
  return v;
}

// Assemble the global graph that the views describe and check that they agree with each other.
// The order of the edges of a node is preserved.
inline G assemble(const std::vector<View> &vs, const std::string &what) {
  sim::NoPreempt np;
  const auto bad = [&](const char *cls, const std::string &msg) { sim::fail(cls, what + ": " + msg); };
  G g;
  const int p = static_cast<int>(vs.size());
  std::size_t n = 0, m = 0;
  for (const View &v : vs) {
    n += v.n;
    m += v.m;
  }
  g.n = n;
  g.xadj.assign(1, 0);
  i64 max_vw = 0, total_vw = 0, total_ew = 0;
  std::size_t at_n = 0, at_m = 0;
  for (int r = 0; r < p; ++r) {
    const View &v = vs[r];
    const auto who = sim::fmt("process %d: ", r);
    if (v.size != p || v.rank != r) bad("global-view", who + "communicator");
    if (v.global_n != n || v.global_m != m)
      bad("global-totals", who + sim::fmt("global n = %lu, m = %lu; the processes have %zu nodes and %zu edges",
                                          (unsigned long)v.global_n, (unsigned long)v.global_m, n, m));
    if (v.node_dist.size() != static_cast<std::size_t>(p) + 1 || v.edge_dist.size() != static_cast<std::size_t>(p) + 1)
      bad("distribution", who + "size of the distribution arrays");
    for (int i = 0; i <= p; ++i) {
      std::uint64_t en = 0, em = 0;
      for (int j = 0; j < i; ++j) {
        en += vs[j].n;
        em += vs[j].m;
      }
      if (v.node_dist[i] != en) bad("distribution", who + sim::fmt("node distribution[%d] = %lu, expected %lu", i, (unsigned long)v.node_dist[i], (unsigned long)en));
      if (v.edge_dist[i] != em) bad("distribution", who + sim::fmt("edge distribution[%d] = %lu, expected %lu", i, (unsigned long)v.edge_dist[i], (unsigned long)em));
    }
    if (v.offset_n != at_n || v.offset_m != at_m) bad("distribution", who + "offsets");
    std::size_t mm = 0;
    i64 tv = 0, te = 0, mv = 0;
    for (std::size_t u = 0; u < v.n; ++u) {
      if (v.degree[u] != v.adj[u].size()) bad("local-view", who + sim::fmt("degree of node %zu", u));
      for (auto &[x, w] : v.adj[u]) {
        if (x >= n) bad("global-view", who + "edge to a node that does not exist");
        g.adj.push_back(x);
        g.ew.push_back(w);
        te += w;
        ++mm;
        if (w != 1) g.has_ew = true;
      }
      g.xadj.push_back(g.adj.size());
      g.vw.push_back(v.vw[u]);
      if (v.vw[u] != 1) g.has_vw = true;
      tv += v.vw[u];
      mv = std::max(mv, v.vw[u]);
    }
    if (mm != v.m) bad("local-view", who + sim::fmt("m = %zu, but %zu edges", v.m, mm));
    if (v.total_vw != tv || v.total_ew != te || (v.n > 0 && v.max_vw != mv))
      bad("global-totals", who + sim::fmt("local total node weight %ld (actual %ld), edge weight %ld (%ld), max node weight %ld (%ld)",
                                          (long)v.total_vw, (long)tv, (long)v.total_ew, (long)te, (long)v.max_vw, (long)mv));
    total_vw += tv;
    total_ew += te;
    max_vw = std::max(max_vw, mv);
    at_n += v.n;
    at_m += v.m;
  }
  const auto owner_of = [&](std::uint64_t gid) {
    for (int r = 0; r < p; ++r) {
      if (gid < vs[r].offset_n + vs[r].n) return r;
    }
    return -1;
  };
  for (int r = 0; r < p; ++r) {
    const View &v = vs[r];
    const auto who = sim::fmt("process %d: ", r);
    if (v.global_total_vw != total_vw || v.global_total_ew != total_ew || (n > 0 && v.global_max_vw != max_vw))
      bad("global-totals", who + sim::fmt("global total node weight %ld (actual %ld), edge weight %ld (%ld), max node weight %ld (%ld)",
                                          (long)v.global_total_vw, (long)total_vw, (long)v.global_total_ew, (long)total_ew,
                                          (long)v.global_max_vw, (long)max_vw));
    std::set<std::uint64_t> ghosts;
    for (std::size_t i = 0; i < v.ghosts.size(); ++i) {
      const auto gid = v.ghosts[i];
      if (gid >= n) bad("ghost-nodes", who + "ghost node does not exist");
      const int o = owner_of(gid);
      if (o == r) bad("ghost-nodes", who + "owned node as ghost node");
      if (v.ghost_owner[i] != o)
        bad("ghost-nodes", who + sim::fmt("owner of ghost node %lu is %d, not %d", (unsigned long)gid, o, v.ghost_owner[i]));
      if (!ghosts.insert(gid).second) bad("ghost-nodes", who + "ghost node twice");
      const i64 w = vs[o].vw[gid - vs[o].offset_n];
      if (v.vw[v.n + i] != w)
        bad("ghost-weight", who + sim::fmt("ghost node %lu has weight %ld, its owner says %ld", (unsigned long)gid, (long)v.vw[v.n + i], (long)w));
    }
    std::vector<std::uint64_t> cut(p, 0), vol(p, 0);
    std::set<std::uint64_t> used;
    for (std::size_t u = 0; u < v.n; ++u) {
      std::set<int> seen;
      for (auto &[x, w] : v.adj[u]) {
        const int o = owner_of(x);
        if (o != r) {
          used.insert(x);
          ++cut[o];
          if (seen.insert(o).second) ++vol[o];
        }
      }
    }
    if (used != ghosts) bad("ghost-nodes", who + sim::fmt("%zu ghost nodes, %zu remote neighbours", ghosts.size(), used.size()));
    for (int o = 0; o < p; ++o) {
      if (v.cut_to_pe[o] != cut[o] || v.vol_to_pe[o] != vol[o])
        bad("comm-metrics", who + sim::fmt("cut / volume to process %d are %lu / %lu, expected %lu / %lu", o, (unsigned long)v.cut_to_pe[o],
                                           (unsigned long)v.vol_to_pe[o], (unsigned long)cut[o], (unsigned long)vol[o]));
    }
  }
  g.family = "assembled";
  return g;
}

// Both directions of every edge present with the same weight, no self loops, no parallel edges.
inline void check_simple(const G &g, const std::string &what) {
  sim::NoPreempt np;
  std::map<std::pair<std::size_t, std::size_t>, i64> e;
  for (std::size_t u = 0; u < g.n; ++u)
    for (std::size_t i = g.xadj[u]; i < g.xadj[u + 1]; ++i) {
      if (g.adj[i] == u) sim::fail("self-loop", what + sim::fmt(": node %zu", u));
      if (!e.insert({{u, g.adj[i]}, g.ew[i]}).second) sim::fail("parallel-edges", what + sim::fmt(": nodes %zu and %zu", u, g.adj[i]));
    }
  for (auto &[uv, w] : e) {
    auto it = e.find({uv.second, uv.first});
    if (it == e.end() || it->second != w) sim::fail("asymmetric", what + sim::fmt(": edge %zu %zu", uv.first, uv.second));
  }
}

// The same graph under a mapping of the nodes of a to the nodes of b.
inline void check_same(const G &a, const G &b, const std::vector<std::size_t> &map, const std::string &what) {
  sim::NoPreempt np;
  if (a.n != b.n || a.m() != b.m()) sim::fail("graph-differs", what + sim::fmt(": n, m = %zu, %zu instead of %zu, %zu", b.n, b.m(), a.n, a.m()));
  for (std::size_t u = 0; u < a.n; ++u) {
    const std::size_t x = map.empty() ? u : map[u];
    if (a.vw[u] != b.vw[x]) sim::fail("graph-differs", what + sim::fmt(": weight of node %zu", u));
    std::vector<std::pair<std::size_t, i64>> na, nb;
    for (std::size_t i = a.xadj[u]; i < a.xadj[u + 1]; ++i) na.push_back({map.empty() ? a.adj[i] : map[a.adj[i]], a.ew[i]});
    for (std::size_t i = b.xadj[x]; i < b.xadj[x + 1]; ++i) nb.push_back({b.adj[i], b.ew[i]});
    std::sort(na.begin(), na.end());
    std::sort(nb.begin(), nb.end());
    if (na != nb) sim::fail("graph-differs", what + sim::fmt(": neighbours of node %zu", u));
  }
}

// A distributed partition as one process sees it.
struct PView {
  std::size_t n = 0;
  std::vector<unsigned> block; // owned and ghost nodes
  std::vector<i64> bw;
  unsigned k = 0;
  std::vector<std::uint64_t> ghosts;
};
inline PView pview(const DistributedPartitionedGraph &pg) {
  PView v;
  v.n = pg.n();
  v.k = pg.k();
  for (NodeID u = 0; u < pg.total_n(); ++u) {
    v.block.push_back(pg.block(u));
    if (u >= pg.n()) {
      v.ghosts.push_back(pg.local_to_global_node(u));
    }
  }
  for (BlockID b = 0; b < pg.k(); ++b) {
    v.bw.push_back(pg.block_weight(b));
  }
  return v;
}
// Blocks in range, ghost nodes agree with their owners, exact block weights everywhere.
inline std::vector<unsigned> check_partition(const G &g, const std::vector<PView> &vs, unsigned k, const std::string &what) {
  sim::NoPreempt np;
  std::vector<unsigned> part;
  for (const PView &v : vs) {
    part.insert(part.end(), v.block.begin(), v.block.begin() + v.n);
    if (v.k != k) sim::fail("partition-k", what + sim::fmt(": k = %u instead of %u", v.k, k));
  }
  if (part.size() != g.n) sim::fail("simulator-error", "partition size");
  for (std::size_t u = 0; u < g.n; ++u) {
    if (part[u] >= k) sim::fail("invalid-block", what + sim::fmt(": node %zu is in block %u, k = %u", u, part[u], k));
  }
  const auto bw = g.block_weights(part, k);
  for (std::size_t r = 0; r < vs.size(); ++r) {
    const PView &v = vs[r];
    for (std::size_t i = 0; i < v.ghosts.size(); ++i) {
      if (v.block[v.n + i] != part[v.ghosts[i]])
        sim::fail("ghost-block", what + sim::fmt(": process %zu has ghost node %lu in block %u, its owner in block %u", r,
                                                 (unsigned long)v.ghosts[i], v.block[v.n + i], part[v.ghosts[i]]));
    }
    for (unsigned b = 0; b < k; ++b) {
      if (v.bw[b] != bw[b])
        sim::fail("block-weight", what + sim::fmt(": process %zu has weight %ld for block %u, actual %ld", r, (long)v.bw[b], b, (long)bw[b]));
    }
  }
  return part;
}

inline DistributedPartitionedGraph make_pgraph(const DistributedGraph &graph, const std::vector<unsigned> &global, unsigned k) {
  StaticArray<BlockID> part(graph.total_n());
  for (NodeID u = 0; u < graph.total_n(); ++u) {
    part[u] = global[graph.local_to_global_node(u)];
  }
  return DistributedPartitionedGraph(&graph, k, std::move(part));
}

// All processes publish something; process 0 of the job judges.
template <typename T, typename F> void publish(std::vector<T> &slots, int i, T value, F &&judge) {
  slots[i] = std::move(value);
  sim::mpi::meet(static_cast<int>(slots.size()));
  if (i == 0) {
    judge();
  }
  sim::mpi::meet(static_cast<int>(slots.size()));
}
// A graph, its distribution and the processes.
struct GraphJob {
  Base b;
  G g;
  std::vector<std::size_t> dist;
  std::vector<View> views;
  int P() const { return b.P(); }
};

inline void draw_graph_job(GraphJob &w, int max_ranks, int max_threads, const gen::Opts &o) {
  draw_base(w.b, max_ranks, max_threads);
  w.g = gen::random_graph(o);
  w.dist = draw_distribution(w.g.n, w.P());
  w.views.resize(w.P());
}

inline std::string describe(const GraphJob &w) {
  std::string d;
  for (auto x : w.dist) {
    d += " " + std::to_string(x);
  }
  return sim::fmt("%d of %d processes, threads %d; distribution%s; %s", w.P(), w.b.n, w.b.threads[0], d.c_str(), w.g.describe().c_str());
}

inline std::vector<unsigned> draw_partition(const G &g, unsigned k) {
  std::vector<unsigned> part(g.n);
  const int shape = static_cast<int>(sim::choose(sim::K_WORK, 3));
  const unsigned hot = static_cast<unsigned>(sim::choose(sim::K_WORK, k));
  for (std::size_t u = 0; u < g.n; ++u) {
    part[u] = static_cast<unsigned>(shape == 0 ? u * k / g.n : shape == 1 || !sim::coin(0.7) ? sim::choose(sim::K_WORK, k) : hot);
  }
  return part;
}
} // namespace dist_util
#endif
