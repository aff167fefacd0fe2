// Encoders, reference parsers and outcome bookkeeping for the file checks (C15, C16, C17).
#pragma once

#include "io_formats.h"
#include "shm_util.h"

#include <cstring>
#include <functional>
#include <optional>

#include "apps/io/file_toker.h"
#include "apps/io/shm_compressed_graph_binary.h"
#include "apps/io/shm_io.h"
#include "apps/io/shm_metis_parser.h"
#include "apps/io/shm_parhip_parser.h"

namespace fio {
using namespace su;
namespace sio = kaminpar::shm::io;

// ---------------------------------------------------------------------------------------------
// The code under test either returns, throws or calls exit().
inline const char *&what() {
  static const char *w = "";
  return w;
}
inline std::function<void(const std::string &)> &on_report() {
  static std::function<void(const std::string &)> f;
  return f;
}
inline void exit_called(int code) {
  sim::NoPreempt np;
  SIM_CHECK(code != 0, "success-exit", sim::fmt("%s: failed with exit code 0", what()));
  on_report()(sim::fmt("exit(%d)", code));
  sim::done();
}
// Runs `op`; returns true if it returned, false if it reported a failure (then `reported` was called).
template <typename Op> bool attempt(const char *name, const std::function<void(const std::string &)> &reported, Op &&op) {
  what() = name;
  on_report() = reported;
  sim::exit_hook = exit_called;
  std::string why;
  bool ok = false;
  try {
    op();
    ok = true;
  } catch (const std::exception &e) {
    why = e.what();
  }
  sim::exit_hook = nullptr;
  if (!ok) {
    sim::NoPreempt np;
    reported(why);
  }
  return ok;
}

inline std::size_t bucket_of(std::size_t d) {
  std::size_t b = 0;
  while (d > 0) {
    d >>= 1;
    ++b;
  }
  return b;
}

// `graph` is `g` in the given order.
template <typename GraphT> void check_ordered(const GraphT &graph, const G &g, NodeOrdering order, const std::string &cls) {
  sim::NoPreempt np;
  if (order != NodeOrdering::EXTERNAL_DEGREE_BUCKETS) {
    check_same_graph(graph, g, cls);
    return;
  }
  SIM_CHECK(graph.n() == g.n, cls, sim::fmt("n = %lu, expected %zu", (unsigned long)graph.n(), g.n));
  SIM_CHECK(g.n == 0 || graph.permuted(), cls, "a reordered graph has no permutation");
  SIM_CHECK(graph.sorted(), cls, "a graph in degree-bucket order is not marked as sorted");
  std::vector<std::size_t> order_(g.n, SIZE_MAX);
  for (std::size_t u = 0; u < g.n; ++u) {
    const std::size_t p = graph.map_original_node(u);
    SIM_CHECK(p < g.n && order_[p] == SIZE_MAX, cls, sim::fmt("original node %zu is mapped to %zu", u, p));
    order_[p] = u;
  }
  // degree buckets ascend; isolated nodes go last
  auto key = [&](std::size_t u) { return g.deg(u) == 0 ? 1000 : bucket_of(g.deg(u)); };
  for (std::size_t i = 1; i < g.n; ++i)
    SIM_CHECK(key(order_[i - 1]) <= key(order_[i]), cls, sim::fmt("nodes %zu and %zu are not in degree-bucket order", i - 1, i));
  G r;
  r.n = g.n;
  r.xadj.assign(1, 0);
  std::vector<std::size_t> pos(g.n);
  for (std::size_t i = 0; i < g.n; ++i) pos[order_[i]] = i;
  for (std::size_t i = 0; i < g.n; ++i) {
    const std::size_t u = order_[i];
    r.vw.push_back(g.vw[u]);
    for (std::size_t e = g.xadj[u]; e < g.xadj[u + 1]; ++e) {
      r.adj.push_back(pos[g.adj[e]]);
      r.ew.push_back(g.ew[e]);
    }
    r.xadj.push_back(r.adj.size());
  }
  check_same_graph(graph, r, cls);
}

inline G file_graph(std::size_t big = 60) {
  gen::Opts o;
  o.max_n = sim::coin(0.2) ? big : sim::coin(0.4) ? 6 : 16;
  o.max_m = 4 * o.max_n;
  o.shuffle_neighbors = true;
  o.p_vw = o.p_ew = 0.5;
  o.max_vw = o.max_ew = sim::coin() ? 9 : 2000;
  return gen::random_graph(o);
}
} // namespace fio
