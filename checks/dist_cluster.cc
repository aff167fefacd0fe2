// C26: distributed clusterings: valid clusters, agreement on ghost nodes, weight limits, matchings, contractible.
#define DIST_UTIL_GRAPH
#include "dist.h"
#include "dist_util.h"

#include "kaminpar-dist/coarsening/contraction/global_cluster_contraction.h"
#include "kaminpar-dist/coarsening/contraction/local_cluster_contraction.h"
#include "kaminpar-dist/factories.h"
#include "kaminpar-dist/logger.h"
#include "kaminpar-dist/presets.h"

#include "kaminpar-common/random.h"

#include <iostream>

using namespace dist_util;

namespace {
enum Algo { GLP, HEM, HEMLP, LLP, GNOOP, LNOOP };
const ClusteringAlgorithm kAlgo[] = {ClusteringAlgorithm::GLOBAL_LP,   ClusteringAlgorithm::GLOBAL_HEM,  ClusteringAlgorithm::GLOBAL_HEM_LP,
                                     ClusteringAlgorithm::LOCAL_LP,    ClusteringAlgorithm::GLOBAL_NOOP, ClusteringAlgorithm::LOCAL_NOOP};
const char *kName[] = {"global-lp", "hem", "hem-lp", "local-lp", "global-noop", "local-noop"};

struct CView {
  std::size_t n = 0;
  std::vector<std::uint64_t> ghosts;
  std::vector<std::uint64_t> cluster; // owned (and ghost) nodes, global ids
};
struct W : GraphJob {
  bool compressed = false;
  Algo algo = GLP;
  int seed = 0, levels = 1;
  std::string preset;
  std::vector<i64> limit; // of every level
  // options
  int iterations = 3, chunks = 0, max_nb = 0, high = 0;
  bool merge = true, sync = true, enforce = true, cheap = false, cyclic = false, legacy = false;
  bool hem_ignore = false, ignore_ghosts = true, keep_ghosts = false;
  double blacklist = 0;
  unsigned communities = 0;
  // state of the judge
  G cur;
  std::vector<std::size_t> cur_dist;
  std::vector<CView> cviews;
  std::size_t clusters = 0;
  i64 total = 0;
  bool local() const { return algo == LLP || algo == LNOOP; }
};

unsigned community(const W &w, std::uint64_t u) { return w.communities == 0 ? 0 : (u * 2654435761u >> 7) % w.communities; }

void judge(W &w, int lv) {
  sim::NoPreempt np;
  const auto what = sim::fmt("%s, level %d", kName[w.algo], lv);
  const std::size_t n = w.cur.n;
  std::vector<std::uint64_t> cl(n);
  for (int p = 0; p < w.P(); ++p) {
    for (std::size_t u = 0; u < w.cviews[p].n; ++u) cl[w.cur_dist[p] + u] = w.cviews[p].cluster[u];
  }
  std::map<std::uint64_t, std::vector<std::size_t>> members;
  for (std::size_t u = 0; u < n; ++u) {
    if (cl[u] >= n) sim::fail("cluster-range", what + sim::fmt(": node %zu is in cluster %lu, there are %zu nodes", u, (unsigned long)cl[u], n));
    members[cl[u]].push_back(u);
  }
  for (int p = 0; p < w.P(); ++p) {
    const CView &v = w.cviews[p];
    if (w.local()) {
      for (std::size_t u = 0; u < v.n; ++u) {
        if (v.cluster[u] < w.cur_dist[p] || v.cluster[u] >= w.cur_dist[p + 1])
          sim::fail("cluster-range", what + sim::fmt(": node %zu of process %d is in cluster %lu of another process", u, p, (unsigned long)v.cluster[u]));
      }
    } else {
      for (std::size_t i = 0; i < v.ghosts.size(); ++i) {
        if (v.cluster[v.n + i] != cl[v.ghosts[i]])
          sim::fail("ghost-cluster", what + sim::fmt(": process %d has ghost node %lu in cluster %lu, its owner in %lu", p, (unsigned long)v.ghosts[i],
                                                     (unsigned long)v.cluster[v.n + i], (unsigned long)cl[v.ghosts[i]]));
      }
    }
  }
  i64 max_w = 0;
  for (std::size_t u = 0; u < n; ++u) max_w = std::max(max_w, w.cur.vw[u]);
  for (auto &[c, nodes] : members) {
    if (nodes.size() < 2) continue;
    i64 weight = 0;
    for (auto u : nodes) weight += w.cur.vw[u];
    const auto over = [&](i64 limit) {
      if (weight > limit) {
        sim::fail("cluster-weight", what + sim::fmt(": cluster %lu with %zu nodes weighs %ld, limit %ld", (unsigned long)c, nodes.size(), (long)weight, (long)limit));
      }
    };
    if (w.algo == HEM) {
      if (nodes.size() > 2) sim::fail("matching", what + sim::fmt(": cluster %lu has %zu nodes", (unsigned long)c, nodes.size()));
      bool adjacent = false;
      for (std::size_t e = w.cur.xadj[nodes[0]]; e < w.cur.xadj[nodes[0] + 1]; ++e) adjacent |= w.cur.adj[e] == nodes[1];
      if (!adjacent) sim::fail("matching", what + sim::fmt(": nodes %zu and %zu are not adjacent", nodes[0], nodes[1]));
      if (!w.hem_ignore) over(w.limit[lv]);
    } else if (w.algo == GNOOP || w.algo == LNOOP) {
      sim::fail("noop", what + ": nodes were clustered");
    } else if (w.algo == LLP || (w.algo == GLP && w.P() == 1)) {
      // the weight limit is checked before the weight is added: threads may overshoot by one node each
      int threads = 1;
      for (int m : w.b.member) threads = std::max(threads, w.b.threads[m]);
      over(w.limit[lv] + (threads - 1) * max_w);
    }
    if (w.algo == LLP && w.communities > 0 && lv == 0) {
      for (auto u : nodes) {
        if (community(w, u) != community(w, nodes[0])) sim::fail("community", what + sim::fmt(": cluster %lu spans communities", (unsigned long)c));
      }
    }
  }
  w.clusters = members.size();
}
} // namespace

extern "C" {
sim::dist::Config dist_config = {100'000'000, "hang"};

void *dist_prepare() {
  auto *w = new W();
  gen::Opts o;
  o.max_n = sim::coin(0.2) ? 250 : 50;
  o.max_m = 4 * o.max_n;
  // threads of few processes race for a few nodes with many neighbours
  const bool race = sim::coin(0.15);
  if (race) {
    o.max_n = 40;
    o.family = sim::coin() ? 3 : 8;
  }
  draw_graph_job(*w, race ? 2 : 9, race ? 4 : 3, o);
  w->compressed = sim::coin(0.3);
  w->algo = static_cast<Algo>(sim::coin(0.9) ? sim::choose(sim::K_WORK, 4) : sim::choose(sim::K_WORK, 6));
  if (race && sim::coin(0.7)) w->algo = HEM;
  w->seed = static_cast<int>(sim::range(0, 1000));
  w->levels = race ? 1 : static_cast<int>(sim::range(1, w->P() > 4 ? 2 : 3));
  static const std::vector<std::string> names = {"default", "strong", "europar23-fast"};
  w->preset = sim::pick(names);
  const i64 total = w->g.total_vw();
  i64 limit = static_cast<i64>(sim::range(1, std::max<std::uint64_t>(2, std::min<i64>(total, 12 * total / static_cast<i64>(std::max<std::size_t>(1, w->g.n))))));
  if (sim::coin(0.2)) limit = static_cast<i64>(sim::range(1, total));
  for (int i = 0; i < w->levels; ++i) {
    w->limit.push_back(limit);
    limit *= static_cast<i64>(sim::range(1, 4));
  }
  w->iterations = static_cast<int>(sim::range(1, 5));
  w->chunks = static_cast<int>(sim::range(1, w->P() > 4 ? 2 : 4)); // the default of 64 and more only repeats them
  w->max_nb = static_cast<int>(sim::coin(0.15) ? sim::range(1, 6) : 0);
  w->high = static_cast<int>(sim::coin(0.2) ? sim::range(0, 8) : -1);
  w->merge = sim::coin(0.7);
  w->sync = sim::coin(0.8);
  w->enforce = sim::coin(0.8);
  w->cheap = sim::coin(0.2);
  w->cyclic = sim::coin(0.3);
  w->legacy = sim::coin(0.3);
  w->hem_ignore = sim::coin(0.15);
  w->blacklist = sim::coin(0.2) ? 0.3 : 0;
  w->ignore_ghosts = sim::coin(0.6);
  w->keep_ghosts = sim::coin(0.5);
  w->communities = w->algo == LLP && sim::coin(0.4) ? static_cast<unsigned>(sim::range(1, 5)) : 0;
  w->cur = w->g;
  w->cur_dist = w->dist;
  w->cviews.resize(w->P());
  sim::note(sim::fmt("%s %s%s seed %d levels %d limit %ld iterations %d chunks %d max-nb %d high %d%s%s%s%s%s%s%s bl %.1f%s%s comm %u; %s", kName[w->algo],
                     w->preset.c_str(), w->compressed ? " compressed" : "", w->seed, w->levels, (long)w->limit[0], w->iterations, w->chunks, w->max_nb, w->high,
                     w->merge ? " merge" : "", w->sync ? " sync" : "", w->enforce ? " enforce" : "", w->cheap ? " cheap" : "", w->cyclic ? " cyclic" : "",
                     w->legacy ? " legacy" : "", w->hem_ignore ? " hem-ignore" : "", w->blacklist, w->ignore_ghosts ? " ignore-ghosts" : "",
                     w->keep_ghosts ? " keep-ghosts" : "", w->communities, describe(*w).c_str()));
  if (w->P() > 1 && w->g.n > 4 && w->g.m() > 0 && w->algo < GNOOP) {
    sim::mark_nontrivial();
  }
  return w;
}
int dist_ranks(void *w) { return static_cast<W *>(w)->b.n; }

void dist_rank(int r, void *wp) {
  W &w = *static_cast<W *>(wp);
  sim::tbb_configure(w.b.threads[r]);
  MPI_Comm comm = make_comm(w.b, r);
  const int i = w.b.index(r);
  if (i < 0) {
    return;
  }
  std::cout.setstate(std::ios::badbit);
  Random::reseed(w.seed);
  Logger::set_quiet_mode(true);
  DistributedGraph input = w.compressed ? build_compressed_graph(w.g, w.dist, comm) : build_graph(w.g, w.dist, comm);
  publish(w.views, i, view(input), [&] { assemble(w.views, "input"); });
  {
    Context ctx = create_context_by_preset_name(w.preset);
    ctx.parallel.num_mpis = w.P();
    ctx.parallel.num_threads = w.b.threads[r];
    ctx.partition.k = 2;
    ctx.partition.graph = std::make_unique<GraphContext>(input, ctx.partition);
    auto &g = ctx.coarsening.global_lp;
    g.num_iterations = w.iterations;
    g.merge_singleton_clusters = w.merge;
    g.sync_cluster_weights = w.sync;
    g.enforce_cluster_weights = w.enforce;
    g.cheap_toplevel = w.cheap;
    g.prevent_cyclic_moves = w.cyclic;
    g.enforce_legacy_weight = w.legacy;
    auto &h = ctx.coarsening.hem;
    h.ignore_weight_limit = w.hem_ignore;
    h.small_color_blacklist = w.blacklist;
    {
      g.chunks.fixed_num_chunks = h.chunks.fixed_num_chunks = w.chunks;
    }
    auto &l = ctx.coarsening.local_lp;
    l.num_iterations = w.iterations;
    l.ignore_ghost_nodes = w.ignore_ghosts;
    l.keep_ghost_clusters = w.keep_ghosts;
    if (w.max_nb > 0) g.max_num_neighbors = l.max_num_neighbors = w.max_nb;
    if (w.high >= 0) {
      g.passive_high_degree_threshold = w.high;
      g.active_high_degree_threshold = l.active_high_degree_threshold = std::max(1, w.high);
    }
    auto clusterer = factory::create_clusterer(ctx, kAlgo[w.algo]);
    std::vector<std::unique_ptr<CoarseGraph>> hierarchy;
    const DistributedGraph *graph = &input;
    StaticArray<BlockID> communities(input.total_n());
    for (NodeID u = 0; u < input.total_n(); ++u) communities[u] = community(w, input.local_to_global_node(u));
    for (int lv = 0; lv < w.levels; ++lv) {
      clusterer->set_max_cluster_weight(w.limit[lv]);
      if (w.communities > 0) {
        if (lv == 0) {
          clusterer->set_communities(communities);
        } else {
          clusterer->clear_communities();
        }
      }
      StaticArray<GlobalNodeID> clustering(graph->total_n(), static_array::noinit);
      clusterer->cluster(clustering, *graph);
      CView v;
      v.n = graph->n();
      StaticArray<NodeID> local;
      if (w.local()) {
        local = StaticArray<NodeID>(graph->n());
        for (NodeID u = 0; u < graph->n(); ++u) {
          local[u] = reinterpret_cast<const NodeID *>(clustering.data())[u];
          SIM_CHECK(local[u] < graph->n(), "cluster-range", sim::fmt("%s: node %u of process %d is in cluster %u, %u nodes", kName[w.algo], u, i, local[u], graph->n()));
          v.cluster.push_back(graph->offset_n() + local[u]);
        }
      } else {
        v.cluster.assign(clustering.begin(), clustering.end());
        for (NodeID u = graph->n(); u < graph->total_n(); ++u) v.ghosts.push_back(graph->local_to_global_node(u));
      }
      publish(w.cviews, i, v, [&] { judge(w, lv); });
      auto coarse = w.local() ? contract_local_clustering(*graph, local) : contract_clustering(*graph, clustering, ctx.coarsening);
      publish(w.views, i, view(coarse->get()), [&] {
        const i64 total = w.cur.total_vw();
        w.cur = assemble(w.views, "coarse graph");
        check_simple(w.cur, "coarse graph");
        SIM_CHECK(w.cur.n == w.clusters && w.cur.total_vw() == total, "contraction",
                  sim::fmt("%zu coarse nodes for %zu clusters, weight %ld, before %ld", w.cur.n, w.clusters, (long)w.cur.total_vw(), (long)total));
        w.cur_dist.assign(w.views[0].node_dist.begin(), w.views[0].node_dist.end());
      });
      hierarchy.push_back(std::move(coarse));
      graph = &hierarchy.back()->get();
    }
  }
  sim::mpi::meet(w.P());
}

void dist_finish(void *) {}
}
