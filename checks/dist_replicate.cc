// C28: gathering, replicating, redistributing and rearranging distributed graphs and partitions.
#define DIST_UTIL_GRAPH
#include "dist.h"
#include "dist_util.h"

#include "kaminpar-dist/graphutils/rearrangement.h"
#include "kaminpar-dist/graphutils/replicator.h"
#include "kaminpar-dist/logger.h"
#include "kaminpar-dist/presets.h"

#include "kaminpar-shm/metrics.h"

#include "kaminpar-common/random.h"

#include <iostream>

using namespace dist_util;

namespace {
enum Op { GATHER, GATHER_P, REPLICATE, BEST_SHM, DISTRIBUTE, REARRANGE, OPS };
const char *kOps[] = {"gather", "gather-partition", "replicate", "best-shm", "distribute", "rearrange"};

struct W : GraphJob {
  bool compressed = false;
  std::vector<int> ops;
  int replications = 1, depth = 1, root = 0, chunks = 1, order = 1, seed = 0;
  unsigned k = 2;
  std::vector<std::vector<unsigned>> parts; // some global partitions
  std::vector<PView> pviews;
  std::vector<std::vector<View>> groups;
  std::vector<std::vector<PView>> pgroups;
  std::vector<std::vector<std::size_t>> color_sizes;
  int groups_done = 0;
};

i64 cut(const G &g, const std::vector<unsigned> &p) {
  i64 c = 0;
  for (std::size_t u = 0; u < g.n; ++u)
    for (std::size_t e = g.xadj[u]; e < g.xadj[u + 1]; ++e)
      if (p[u] != p[g.adj[e]]) c += g.ew[e];
  return c / 2;
}

G from_shm(const shm::Graph &graph) {
  const shm::CSRGraph &csr = dynamic_cast<const shm::CSRGraph &>(*graph.underlying_graph());
  sim::NoPreempt np;
  G g;
  g.n = csr.n();
  g.xadj.assign(1, 0);
  for (shm::NodeID u = 0; u < csr.n(); ++u) {
    g.vw.push_back(csr.node_weight(u));
    csr.adjacent_nodes(u, [&](const shm::NodeID v, const shm::EdgeWeight w) {
      SIM_CHECK(v < csr.n(), "graph-differs", "gathered graph: neighbour out of range");
      g.adj.push_back(v);
      g.ew.push_back(w);
    });
    g.xadj.push_back(g.adj.size());
  }
  SIM_CHECK(g.m() == csr.m(), "graph-differs", "number of edges of the gathered graph");
  return g;
}

// One level of replication below `graph` (the global graph, distributed over comm_size processes): the graph of
// each group must be the global graph; then every group has its own partition of it and the best one survives.
void replicate(W &w, int i, const DistributedGraph &graph, int depth, std::uint64_t salt) {
  const int size = kmpi::get_comm_size(graph.communicator()), rank = kmpi::get_comm_rank(graph.communicator());
  int r = w.replications;
  while (size % r != 0) --r;
  DistributedGraph mine = replicate_graph(graph, r);
  const int gsize = kmpi::get_comm_size(mine.communicator()), grank = kmpi::get_comm_rank(mine.communicator());
  SIM_CHECK(gsize == size / r, "replication", sim::fmt("group of %d processes instead of %d", gsize, size / r));
  w.views[i] = view(mine);
  // which group am I in? gather the job index of the group's first process through MPI-free bookkeeping
  int first = i;
  MPI_Bcast(&first, 1, MPI_INT, 0, mine.communicator());
  std::vector<int> members(gsize);
  MPI_Allgather(&i, 1, MPI_INT, members.data(), 1, MPI_INT, mine.communicator());
  sim::mpi::meet(w.P());
  if (grank == 0) {
    std::vector<View> vs;
    for (int m : members) vs.push_back(w.views[m]);
    G g = assemble(vs, "replica");
    check_simple(g, "replica");
    check_same(w.g, g, {}, "replica");
  }
  sim::mpi::meet(w.P());
  if (depth > 1 && gsize > 1) {
    replicate(w, i, mine, depth - 1, salt * 31 + first);
  }
  sim::mpi::meet(w.P());
  // a partition per group
  const auto &part = w.parts[(salt + first) % w.parts.size()];
  DistributedPartitionedGraph p = make_pgraph(mine, part, w.k);
  DistributedPartitionedGraph best = distribute_best_partition(graph, std::move(p));
  std::vector<int> firsts(size), all(size);
  MPI_Allgather(&first, 1, MPI_INT, firsts.data(), 1, MPI_INT, graph.communicator());
  MPI_Allgather(&i, 1, MPI_INT, all.data(), 1, MPI_INT, graph.communicator());
  w.pviews[i] = pview(best);
  sim::mpi::meet(w.P());
  if (rank == 0) {
    std::vector<PView> pv;
    for (int m : all) pv.push_back(w.pviews[m]);
    const auto got = check_partition(w.g, pv, w.k, "best partition");
    sim::NoPreempt np;
    i64 min_cut = -1;
    bool known = false;
    for (int f : firsts) {
      const auto &cand = w.parts[(salt + f) % w.parts.size()];
      const i64 c = cut(w.g, cand);
      min_cut = min_cut < 0 ? c : std::min(min_cut, c);
      known |= cand == got;
    }
    if (!known) sim::fail("best-partition", "the partition is not the one of any group");
    if (cut(w.g, got) != min_cut) sim::fail("best-partition", sim::fmt("cut %ld, but a group found %ld", (long)cut(w.g, got), (long)min_cut));
  }
  sim::mpi::meet(w.P());
}
} // namespace

extern "C" {
sim::dist::Config dist_config = {30'000'000, "hang"};

void *dist_prepare() {
  auto *w = new W();
  gen::Opts o;
  o.max_n = sim::coin(0.2) ? 200 : 40;
  o.max_m = 4 * o.max_n;
  draw_graph_job(*w, 12, 3, o);
  w->compressed = sim::coin(0.3);
  std::string ops;
  for (int c = static_cast<int>(sim::range(1, 3)); c > 0; --c) {
    w->ops.push_back(static_cast<int>(sim::choose(sim::K_WORK, OPS)));
    ops += std::string(kOps[w->ops.back()]) + " ";
  }
  w->replications = static_cast<int>(sim::range(1, w->P()));
  w->depth = static_cast<int>(sim::range(1, 2));
  w->root = static_cast<int>(sim::choose(sim::K_WORK, w->P()));
  w->chunks = static_cast<int>(sim::range(1, 4));
  w->order = static_cast<int>(sim::range(0, 3));
  w->seed = static_cast<int>(sim::range(0, 1 << 20));
  w->k = static_cast<unsigned>(sim::range(1, 7));
  for (int c = static_cast<int>(sim::range(1, 12)); c > 0; --c) w->parts.push_back(draw_partition(w->g, w->k));
  w->pviews.resize(w->P());
  w->color_sizes.resize(w->P());
  sim::note(sim::fmt("%s%sreplications %d depth %d root %d chunks %d order %d k %u; %s", ops.c_str(), w->compressed ? "compressed " : "", w->replications, w->depth,
                     w->root, w->chunks, w->order, w->k, describe(*w).c_str()));
  if (w->P() > 1 && w->g.n > 4 && w->g.m() > 0) {
    sim::mark_nontrivial();
  }
  return w;
}
int dist_ranks(void *w) { return static_cast<W *>(w)->b.n; }

void dist_rank(int r, void *wp) {
  W &w = *static_cast<W *>(wp);
  sim::tbb_configure(w.b.threads[r]);
  MPI_Comm comm = make_comm(w.b, r);
  const int i = w.b.index(r);
  if (i < 0) {
    return;
  }
  std::cout.setstate(std::ios::badbit);
  Logger::set_quiet_mode(true);
  Random::reseed(w.seed % 1000);
  const auto build = [&] { return w.compressed ? build_compressed_graph(w.g, w.dist, comm) : build_graph(w.g, w.dist, comm); };
  DistributedGraph graph = build();
  publish(w.views, i, view(graph), [&] { assemble(w.views, "input"); });
  for (int op : w.ops) {
    switch (op) {
    case GATHER: {
      shm::Graph g = replicate_graph_everywhere(graph);
      const G got = from_shm(g);
      check_same(w.g, got, {}, "gathered graph");
      SIM_CHECK(g.total_node_weight() == w.g.total_vw(), "graph-differs", "total node weight of the gathered graph");
      break;
    }
    case GATHER_P: {
      const auto &part = w.parts[0];
      DistributedPartitionedGraph p = make_pgraph(graph, part, w.k);
      auto [g, sp] = allgather_graph(p);
      check_same(w.g, from_shm(*g), {}, "gathered graph");
      sim::NoPreempt np;
      SIM_CHECK(sp->k() == w.k && sp->n() == w.g.n, "partition-differs", "gathered partition");
      const auto bw = w.g.block_weights(part, w.k);
      for (std::size_t u = 0; u < w.g.n; ++u) SIM_CHECK(sp->block(u) == part[u], "partition-differs", sim::fmt("gathered partition: node %zu", u));
      for (unsigned b = 0; b < w.k; ++b) SIM_CHECK(sp->block_weight(b) == bw[b], "partition-differs", sim::fmt("gathered partition: weight of block %u", b));
      break;
    }
    case REPLICATE: replicate(w, i, graph, w.depth, static_cast<std::uint64_t>(w.seed)); break;
    case BEST_SHM: {
      shm::Graph g = replicate_graph_everywhere(graph);
      const auto &mine = w.parts[(w.seed + i) % w.parts.size()];
      StaticArray<shm::BlockID> sp(w.g.n);
      for (std::size_t u = 0; u < w.g.n; ++u) sp[u] = mine[u];
      shm::PartitionedGraph p(g, w.k, std::move(sp));
      DistributedPartitionedGraph best = distribute_best_partition(graph, std::move(p));
      publish(w.pviews, i, pview(best), [&] {
        const auto got = check_partition(w.g, w.pviews, w.k, "best partition");
        sim::NoPreempt np;
        i64 min_cut = -1;
        bool known = false;
        for (int j = 0; j < w.P(); ++j) {
          const auto &cand = w.parts[(w.seed + j) % w.parts.size()];
          const i64 c = cut(w.g, cand);
          min_cut = min_cut < 0 ? c : std::min(min_cut, c);
          known |= cand == got;
        }
        if (!known) sim::fail("best-partition", "the partition is not the one of any process");
        if (cut(w.g, got) != min_cut) sim::fail("best-partition", sim::fmt("cut %ld, but a process found %ld", (long)cut(w.g, got), (long)min_cut));
      });
      break;
    }
    case DISTRIBUTE: {
      const auto &part = w.parts.back();
      StaticArray<shm::BlockID> global;
      if (i == w.root) {
        global = StaticArray<shm::BlockID>(w.g.n);
        for (std::size_t u = 0; u < w.g.n; ++u) global[u] = part[u];
      }
      DistributedPartitionedGraph p = distribute_partition(graph, w.k, global, w.root);
      publish(w.pviews, i, pview(p), [&] {
        const auto got = check_partition(w.g, w.pviews, w.k, "distributed partition");
        SIM_CHECK(got == part, "partition-differs", "distributed partition");
      });
      break;
    }
    case REARRANGE: {
      DistributedGraph copy = build_graph(w.g, w.dist, comm);
      Context ctx = create_default_context();
      ctx.parallel.num_mpis = w.P();
      ctx.refinement.colored_lp.coloring_chunks.fixed_num_chunks = w.chunks;
      const GraphOrdering orders[] = {GraphOrdering::NATURAL, GraphOrdering::DEGREE_BUCKETS, GraphOrdering::COLORING, GraphOrdering::COLORING};
      if (w.order < 3) {
        ctx.rearrange_by = orders[w.order];
        copy = DistributedGraph(std::make_unique<DistributedCSRGraph>(graph::rearrange(std::move(copy.csr_graph()), ctx)));
      } else {
        // an arbitrary permutation of the local nodes
        StaticArray<NodeID> old_to_new(copy.n()), new_to_old(copy.n());
        for (NodeID u = 0; u < copy.n(); ++u) new_to_old[u] = u;
        std::uint64_t x = w.seed + 977 * i + 1;
        for (NodeID u = copy.n(); u > 1; --u) {
          x = x * 6364136223846793005ull + 1442695040888963407ull;
          std::swap(new_to_old[u - 1], new_to_old[(x >> 33) % u]);
        }
        for (NodeID u = 0; u < copy.n(); ++u) old_to_new[new_to_old[u]] = u;
        copy = DistributedGraph(std::make_unique<DistributedCSRGraph>(
            graph::rearrange_by_permutation(std::move(copy.csr_graph()), std::move(old_to_new), std::move(new_to_old), false)));
      }
      w.color_sizes[i].clear();
      if (copy.color_sorted()) {
        for (std::size_t c = 0; c < copy.number_of_colors(); ++c) w.color_sizes[i].push_back(copy.color_size(c));
      }
      publish(w.views, i, view(copy), [&] {
        const G got = assemble(w.views, "rearranged graph");
        check_simple(got, "rearranged graph");
        sim::NoPreempt np;
        std::vector<std::size_t> map(w.g.n);
        std::vector<bool> seen(w.g.n, false);
        for (int p = 0; p < w.P(); ++p) {
          const View &v = w.views[p];
          if (v.offset_n != w.dist[p] || v.n != w.dist[p + 1] - w.dist[p]) sim::fail("graph-differs", "rearranging moved nodes between processes");
          for (std::size_t u = 0; u < v.n; ++u) {
            const std::size_t to = v.perm.empty() ? u : v.perm[u];
            if (to >= v.n || seen[w.dist[p] + to]) sim::fail("permutation", sim::fmt("process %d: node %zu is mapped to %zu", p, u, to));
            seen[w.dist[p] + to] = true;
            map[w.dist[p] + u] = w.dist[p] + to;
          }
        }
        check_same(w.g, got, map, "rearranged graph");
        for (int p = 0; w.order == 1 && p < w.P(); ++p) {
          int last = 0;
          for (std::size_t d : w.views[p].degree) {
            if (d == 0) continue;
            int b = 0;
            while ((d >> b) > 1) ++b;
            if (b < last) sim::fail("degree-order", sim::fmt("process %d: nodes are not ordered by degree buckets", p));
            last = b;
          }
        }
        if (w.order == 2) {
          std::vector<std::size_t> color(w.g.n, 0);
          for (int p = 0; p < w.P(); ++p) {
            const auto &cs = w.color_sizes[p];
            if (cs.size() != w.color_sizes[0].size()) sim::fail("coloring", "the processes disagree on the number of colors");
            std::size_t at = w.dist[p];
            for (std::size_t c = 0; c < cs.size(); ++c)
              for (std::size_t j = 0; j < cs[c]; ++j) {
                if (at >= w.dist[p + 1]) sim::fail("coloring", "more colored nodes than nodes");
                color[at++] = c;
              }
            if (at != w.dist[p + 1]) sim::fail("coloring", "color sizes do not add up");
          }
          for (std::size_t u = 0; u < w.g.n; ++u)
            for (std::size_t e = got.xadj[u]; e < got.xadj[u + 1]; ++e)
              if (color[u] == color[got.adj[e]]) sim::fail("coloring", sim::fmt("adjacent nodes %zu and %zu have the same color", u, got.adj[e]));
        }
      });
      break;
    }
    }
    sim::mpi::meet(w.P());
  }
}

void dist_finish(void *) {}
}
