// C33: the validator for input graphs accepts exactly the simple undirected graphs with equal weights in both directions.
#include "io_common.h"

#include "apps/io/shm_input_validator.h"

namespace {
using namespace fio;

// Why `g` is not a simple undirected graph; empty if it is one.
std::string defect(const G &g) {
  std::vector<std::map<std::size_t, i64>> nb(g.n);
  for (std::size_t u = 0; u < g.n; ++u)
    for (std::size_t e = g.xadj[u]; e < g.xadj[u + 1]; ++e)
      if (!nb[u].emplace(g.adj[e], g.ew[e]).second) return sim::fmt("two edges %zu -> %zu", u, static_cast<std::size_t>(g.adj[e]));
  for (std::size_t u = 0; u < g.n; ++u)
    for (const auto &[v, w] : nb[u]) {
      const auto it = nb[v].find(u);
      if (it == nb[v].end()) return sim::fmt("no edge %zu -> %zu", v, u);
      if (it->second != w) return sim::fmt("edges %zu -> %zu and back differ in weight", u, v);
    }
  return "";
}

void insert(G &g, std::size_t u, std::size_t at, std::size_t v, i64 w) {
  g.adj.insert(g.adj.begin() + at, v);
  g.ew.insert(g.ew.begin() + at, w);
  for (std::size_t x = u + 1; x <= g.n; ++x) ++g.xadj[x];
}

void run() {
  const int P = static_cast<int>(sim::range(1, 6));
  sim::tbb_configure(P);
  sim::fs::reset();
  G g = file_graph();
  const char *change = "none";
  {
    sim::NoPreempt np;
    const int changes = g.m() == 0 ? 0 : static_cast<int>(sim::range(0, 2));
    for (int i = 0; i < changes && g.m() > 0; ++i) {
      const std::size_t e = sim::range(0, g.adj.size() - 1);
      std::size_t u = 0;
      while (g.xadj[u + 1] <= e) ++u;
      const std::size_t v = g.adj[e];
      const i64 w = g.ew[e];
      const auto slot = [&](std::size_t x) { return g.xadj[x] + sim::range(0, g.xadj[x + 1] - g.xadj[x]); };
      switch (sim::range(0, 5)) {
      case 0:
        change = "direction removed";
        g.adj.erase(g.adj.begin() + e);
        g.ew.erase(g.ew.begin() + e);
        for (std::size_t x = u + 1; x <= g.n; ++x) --g.xadj[x];
        break;
      case 1:
        change = "weight of one direction";
        if (g.has_ew) g.ew[e] = sim::coin() ? w + 1 : w > 1 ? w - 1 : w + 2;
        break;
      case 2:
      case 3:
        change = "edge repeated in both directions";
        insert(g, u, slot(u), v, w);
        insert(g, v, slot(v), u, w);
        break;
      case 4:
        change = "edge repeated in one direction";
        insert(g, u, slot(u), v, w);
        break;
      default: {
        change = "endpoint moved";
        const std::size_t x = sim::range(0, g.n - 1);
        if (x != u) g.adj[e] = x;
        break;
      }
      }
    }
  }
  const std::string why = defect(g);
  sim::note(sim::fmt("P=%d change=%s %s; %s", P, change, why.c_str(), g.describe().c_str()));
  sim::count(why.empty() ? "graph:valid" : "graph:invalid");
  if (P > 1 && g.m() > 0) sim::mark_nontrivial();
  const Graph graph = graph_of(g);
  const auto reported = [&](const std::string &) {
    sim::count("outcome:reported");
    SIM_CHECK(!why.empty(), "rejected-valid", "a simple undirected graph was rejected");
  };
  if (!attempt("validate_undirected_graph", reported, [&] { validate_undirected_graph(graph); })) return;
  sim::count("outcome:accepted");
  SIM_CHECK(why.empty(), "accepted-invalid", sim::fmt("accepted although there are/is %s", why.c_str()));
  check_same_graph(graph, g, "changed-graph");
}
} // namespace

sim::Check sim::the_check = {"io_validate", run, 60'000'000, "hang"};
