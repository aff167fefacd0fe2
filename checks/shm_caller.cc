// C03: the caller's graph stays intact, results are in the caller's numbering, objects can be reused.
#include "shm_e2e.h"

namespace {
using namespace e2e;

void unchanged(const Arrays &a, const Arrays &b) {
  SIM_CHECK(a.xadj == b.xadj && a.adj == b.adj && a.vw == b.vw && a.ew == b.ew, "graph-modified",
            "the caller's graph was modified although it was copied");
}

// The borrowed arrays must still describe a graph that is isomorphic to g (the partitioner may
// permute them), as far as can be told from degree, weight and edge weight statistics.
void still_a_graph(const Arrays &a, const G &g) {
  sim::NoPreempt np;
  std::vector<i64> d1, d2;
  for (std::size_t u = 0; u < g.n; ++u) {
    d1.push_back(static_cast<i64>(a.xadj[u + 1]) - static_cast<i64>(a.xadj[u]));
    d2.push_back(static_cast<i64>(g.deg(u)));
  }
  std::sort(d1.begin(), d1.end());
  std::sort(d2.begin(), d2.end());
  SIM_CHECK(d1 == d2, "borrowed-graph-broken", "degrees of the borrowed graph changed");
}

void run() {
  Workload w = random_workload(false);
  sim::tbb_configure(w.P);
  gen::Opts o;
  o.max_n = 40;
  o.max_m = 100;
  std::vector<G> graphs;
  graphs.push_back(gen::random_graph(o));
  if (sim::coin()) graphs.push_back(gen::random_graph(o));
  if (sim::coin(0.3)) w.ctx.edge_ordering = EdgeOrdering::COMPRESSION;
  reseed(static_cast<int>(sim::range(0, 1000)));
  KaMinPar kmp(w.threads, w.ctx);
  kmp.set_output_level(OutputLevel::QUIET);
  std::string ops;
  const int rounds = static_cast<int>(sim::range(1, 4));
  std::vector<std::unique_ptr<Arrays>> arrays, originals;
  std::size_t cur = 0;
  bool borrowed = false;
  for (int r = 0; r < rounds; ++r) {
    if (r == 0 || sim::coin(0.4)) {
      cur = sim::range(0, graphs.size() - 1);
      borrowed = sim::coin(0.3);
      arrays.push_back(std::make_unique<Arrays>(graphs[cur]));
      originals.push_back(std::make_unique<Arrays>(graphs[cur]));
      auto &a = *arrays.back();
      if (borrowed) {
        kmp.borrow_and_mutate_graph(a.xadj, a.adj, a.vw, a.ew);
      } else {
        kmp.copy_graph(a.xadj, a.adj, a.vw, a.ew);
        if (sim::coin()) { // the caller may do what it wants with its copy
          sim::NoPreempt np;
          std::fill(a.xadj.begin(), a.xadj.end(), 0xffffff);
          std::fill(a.adj.begin(), a.adj.end(), 0xffffff);
          *originals.back() = a;
        }
      }
      ops += sim::fmt(" %s(%s)", borrowed ? "borrow" : "copy", graphs[cur].describe().c_str());
    }
    const G &g = graphs[cur];
    const BlockID k = supported_k(w, static_cast<BlockID>(sim::range(1, 6)));
    const double eps = 0.01 * static_cast<double>(sim::range(1, 30));
    const int how = static_cast<int>(sim::range(0, 2));
    ops += sim::fmt(" k=%u/%d", k, how);
    sim::note(w.preset + w.tweaks + sim::fmt(" P=%d t=%d:", w.P, w.threads) + ops);
    // room behind the span must stay untouched
    std::vector<BlockID> buf(g.n + 8, 4242);
    std::span<BlockID> part(buf.data() + 4, g.n);
    std::fill(part.begin(), part.end(), kInvalidBlockID);
    EdgeWeight cut = 0;
    if (how == 0) {
      cut = kmp.compute_partition(k, eps, part);
    } else if (how == 1) {
      cut = kmp.compute_partition(k, part);
    } else {
      const i64 W = g.total_vw();
      std::vector<BlockWeight> max(k, static_cast<BlockWeight>((W + k - 1) / k * 1.1 + g.max_vw() + 1));
      cut = kmp.compute_partition(max, part);
    }
    sim::NoPreempt np;
    check_partition(g, std::vector<BlockID>(part.begin(), part.end()), k, cut);
    for (int i = 0; i < 4; ++i)
      SIM_CHECK(buf[i] == 4242 && buf[g.n + 4 + i] == 4242, "wrote-outside-span", "memory around the span changed");
    if (!borrowed) unchanged(*arrays.back(), *originals.back());
    else still_a_graph(*arrays.back(), g);
    if (g.n > 4 && g.m() > 0 && k > 1) sim::mark_nontrivial();
  }
}
} // namespace

sim::Check sim::the_check = {"shm_caller", run, 400'000'000, "hang"};
