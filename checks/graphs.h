// Workload generator shared by all checks: plain adjacency-array graphs ("model graphs").
#pragma once

#include <algorithm>
#include <cstdint>
#include <map>
#include <set>
#include <string>
#include <utility>
#include <vector>

#include "sim.h"

namespace gen {

using i64 = std::int64_t;

// Undirected graph; both directions stored; neighbors sorted unless shuffled.
struct G {
  std::size_t n = 0;
  std::vector<std::size_t> xadj{0};
  std::vector<std::size_t> adj;
  std::vector<i64> ew; // always filled (1 if unweighted)
  std::vector<i64> vw; // always filled
  bool has_vw = false, has_ew = false;
  std::string family;

  std::size_t m() const { return adj.size(); }
  std::size_t deg(std::size_t u) const { return xadj[u + 1] - xadj[u]; }
  i64 total_vw() const {
    i64 s = 0;
    for (auto w : vw) s += w;
    return s;
  }
  i64 max_vw() const {
    i64 s = 0;
    for (auto w : vw) s = std::max(s, w);
    return s;
  }
  i64 total_ew() const {
    i64 s = 0;
    for (auto w : ew) s += w;
    return s;
  }
  template <typename P> i64 cut(const P &part) const {
    i64 c = 0;
    for (std::size_t u = 0; u < n; ++u)
      for (std::size_t e = xadj[u]; e < xadj[u + 1]; ++e)
        if (part[u] != part[adj[e]]) c += ew[e];
    return c / 2;
  }
  template <typename P> std::vector<i64> block_weights(const P &part, std::size_t k) const {
    std::vector<i64> w(k, 0);
    for (std::size_t u = 0; u < n; ++u) w[part[u]] += vw[u];
    return w;
  }
  std::string describe() const {
    return sim::fmt("%s n=%zu m=%zu%s%s", family.c_str(), n, m() / 2, has_vw ? " vw" : "",
                    has_ew ? " ew" : "");
  }
};

struct Opts {
  std::size_t max_n = 40;
  std::size_t max_m = 200;      // undirected edges (approximately)
  i64 max_vw = 8, max_ew = 8;
  double p_vw = 0.4, p_ew = 0.4;
  bool allow_empty = true;      // n == 0
  bool isolated = true;         // may add isolated nodes
  bool shuffle_ids = true;
  bool shuffle_neighbors = false;
  int family = -1;             // of the graph; default: any
};

inline G from_edges(std::size_t n, const std::map<std::pair<std::size_t, std::size_t>, i64> &edges) {
  G g;
  g.n = n;
  std::vector<std::vector<std::pair<std::size_t, i64>>> nb(n);
  for (auto &[uv, w] : edges) {
    nb[uv.first].push_back({uv.second, w});
    nb[uv.second].push_back({uv.first, w});
  }
  g.xadj.assign(1, 0);
  for (auto &x : nb) {
    std::sort(x.begin(), x.end());
    for (auto &[v, w] : x) {
      g.adj.push_back(v);
      g.ew.push_back(w);
    }
    g.xadj.push_back(g.adj.size());
  }
  g.vw.assign(n, 1);
  return g;
}

inline G random_graph(const Opts &o = {}) {
  sim::NoPreempt np;
  using sim::range;
  std::size_t n = 0;
  std::map<std::pair<std::size_t, std::size_t>, i64> E;
  auto add = [&](std::size_t u, std::size_t v) {
    if (u == v) return;
    if (u > v) std::swap(u, v);
    E[{u, v}] = 1;
  };
  static const char *names[] = {"random", "path", "cycle", "star", "clique", "grid",
                                "powerlaw", "cliques", "stars", "edgeless", "bipartite", "tree", "matching"};
  const int fam = o.family >= 0 ? o.family : static_cast<int>(range(0, 12));
  const std::size_t lo = o.allow_empty ? 0 : 1;
  n = range(lo, o.max_n);
  if (sim::coin(0.5)) n = std::max(n, static_cast<std::size_t>(range(lo, o.max_n))); // favour larger
  switch (fam) {
  case 0: {
    if (n > 1) {
      const std::size_t m = range(0, o.max_m);
      for (std::size_t i = 0; i < m; ++i) add(range(0, n - 1), range(0, n - 1));
    }
    break;
  }
  case 1:
    for (std::size_t i = 1; i < n; ++i) add(i - 1, i);
    break;
  case 2:
    for (std::size_t i = 0; i < n; ++i) add(i, (i + 1) % n);
    break;
  case 3:
    for (std::size_t i = 1; i < n; ++i) add(0, i);
    break;
  case 4: {
    while (n > 2 && n * (n - 1) / 2 > o.max_m) --n;
    for (std::size_t i = 0; i < n; ++i)
      for (std::size_t j = i + 1; j < n; ++j) add(i, j);
    break;
  }
  case 5: {
    std::size_t c = 1;
    while ((c + 1) * (c + 1) <= n) ++c;
    if (c > 1 && sim::coin()) c = std::max<std::size_t>(1, c / 2);
    for (std::size_t i = 0; i < n; ++i) {
      if (i % c + 1 < c && i + 1 < n) add(i, i + 1);
      if (i + c < n) add(i, i + c);
    }
    break;
  }
  case 6: {
    for (std::size_t i = 1; i < n; ++i) {
      const std::size_t d = range(1, 3);
      for (std::size_t j = 0; j < d; ++j) {
        std::size_t t = range(0, i - 1);
        if (sim::coin()) t = range(0, t);
        add(i, t);
      }
    }
    break;
  }
  case 7: {
    const std::size_t s = range(2, 8);
    for (std::size_t i = 0; i < n; ++i)
      for (std::size_t j = i + 1; j < n && j / s == i / s; ++j) add(i, j);
    if (sim::coin())
      for (std::size_t i = s; i < n; i += s) add(i - 1, i);
    break;
  }
  case 8: {
    const std::size_t s = range(2, 12);
    for (std::size_t i = 0; i < n; ++i) add(i, i / s * s);
    if (sim::coin())
      for (std::size_t i = s; i < n; i += s) add(i - s, i);
    break;
  }
  case 9:
    break;
  case 10: {
    const std::size_t a = n / 2;
    if (a > 0) {
      const std::size_t m = range(0, o.max_m);
      for (std::size_t i = 0; i < m; ++i) add(range(0, a - 1), range(a, n - 1));
    }
    break;
  }
  case 11:
    for (std::size_t i = 1; i < n; ++i) add(i, (i - 1) / 2);
    break;
  default:
    for (std::size_t i = 0; i + 1 < n; i += 2) add(i, i + 1);
    break;
  }
  if (o.isolated && n < o.max_n && sim::coin(0.3)) {
    n += range(1, std::min<std::size_t>(o.max_n - n, 6));
  }
  std::vector<std::size_t> perm(n);
  for (std::size_t i = 0; i < n; ++i) perm[i] = i;
  if (o.shuffle_ids && sim::coin()) {
    for (std::size_t i = n; i > 1; --i) std::swap(perm[i - 1], perm[range(0, i - 1)]);
  }
  const bool has_ew = sim::coin(o.p_ew);
  std::map<std::pair<std::size_t, std::size_t>, i64> E2;
  for (auto &[uv, w] : E) {
    std::size_t a = perm[uv.first], b = perm[uv.second];
    if (a > b) std::swap(a, b);
    E2[{a, b}] = has_ew ? static_cast<i64>(range(1, o.max_ew)) : 1;
  }
  G g = from_edges(n, E2);
  g.has_ew = has_ew;
  g.family = names[fam];
  if (sim::coin(o.p_vw)) {
    g.has_vw = true;
    for (auto &w : g.vw) w = static_cast<i64>(range(1, o.max_vw));
  }
  if (o.shuffle_neighbors && sim::coin()) {
    for (std::size_t u = 0; u < n; ++u) {
      for (std::size_t i = g.xadj[u + 1]; i > g.xadj[u] + 1; --i) {
        const std::size_t j = range(g.xadj[u], i - 1);
        std::swap(g.adj[i - 1], g.adj[j]);
        std::swap(g.ew[i - 1], g.ew[j]);
      }
    }
  }
  std::uint64_t key = n * 1000003 + fam;
  for (std::size_t e = 0; e < g.adj.size(); ++e) key = key * 6364136223846793005ull + g.adj[e] * 31 + g.ew[e];
  for (auto w : g.vw) key = key * 1099511628211ull + w;
  sim::case_key(key);
  return g;
}

// Few hubs that are adjacent to (almost) all of very many nodes: reaches code paths for large degrees.
// A single choice seeds the whole graph.
inline std::uint64_t mix(std::uint64_t &s) {
  std::uint64_t z = (s += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
inline G large_graph(std::size_t min_n, std::size_t max_n) {
  sim::NoPreempt np;
  const std::size_t n = sim::range(min_n, max_n), hubs = sim::range(1, 5);
  const bool has_ew = sim::coin(), has_vw = sim::coin(), shuffled = sim::coin(), last = sim::coin();
  const std::size_t extra = sim::range(0, 2) * 1000, dense = sim::range(0, 1) * 20;
  const unsigned miss = static_cast<unsigned>(sim::range(0, 2)); // percent of the hubs' edges that are missing
  std::uint64_t s = sim::range(0, 1u << 30);
  std::vector<std::size_t> id(n);
  for (std::size_t i = 0; i < n; ++i) id[i] = i;
  if (last) std::reverse(id.begin(), id.end());
  if (shuffled)
    for (std::size_t i = n; i > 1; --i) std::swap(id[i - 1], id[mix(s) % i]);
  std::map<std::pair<std::size_t, std::size_t>, i64> E;
  auto add = [&](std::size_t u, std::size_t v) {
    if (u != v) E[{std::min(id[u], id[v]), std::max(id[u], id[v])}] = has_ew ? 1 + static_cast<i64>(mix(s) % 5) : 1;
  };
  for (std::size_t h = 0; h < hubs; ++h)
    for (std::size_t u = h + 1; u < n; ++u)
      if (mix(s) % 100 >= miss) add(h, u);
  for (std::size_t i = 0; i < extra; ++i) add(mix(s) % n, mix(s) % n);
  for (std::size_t i = 0; i < dense; ++i) add(n - 1 - mix(s) % 10, n - 1 - mix(s) % 10);
  G g = from_edges(n, E);
  g.has_ew = has_ew;
  g.has_vw = has_vw;
  if (has_vw)
    for (auto &w : g.vw) w = 1 + static_cast<i64>(mix(s) % 4);
  g.family = sim::fmt("large(hubs=%zu)", hubs);
  sim::case_key(s * 31 + n);
  return g;
}
// Mostly singletons, nodes of large degree together.
inline std::vector<std::uint32_t> large_clustering(const G &g) {
  sim::NoPreempt np;
  std::uint64_t s = sim::range(0, 1u << 30);
  const unsigned joined = static_cast<unsigned>(sim::range(0, 3)) * 3;
  const bool merge_hubs = sim::coin();
  std::size_t hub = g.n;
  std::vector<std::uint32_t> c(g.n);
  for (std::size_t u = 0; u < g.n; ++u) {
    c[u] = u;
    if (g.deg(u) > g.n / 2) {
      if (hub == g.n) hub = u;
      if (merge_hubs) c[u] = hub;
    } else if (u > 0 && mix(s) % 100 < joined) {
      c[u] = c[mix(s) % u];
    }
  }
  return c;
}

inline std::vector<std::uint32_t> random_partition(const G &g, std::size_t k) {
  sim::NoPreempt np;
  std::vector<std::uint32_t> p(g.n);
  const int mode = static_cast<int>(sim::range(0, 3));
  for (std::size_t u = 0; u < g.n; ++u) {
    switch (mode) {
    case 0:
      p[u] = sim::range(0, k - 1);
      break;
    case 1:
      p[u] = u * k / g.n; // contiguous, balanced
      break;
    case 2:
      p[u] = u % k;
      break;
    default:
      p[u] = sim::coin(0.7) ? 0 : sim::range(0, k - 1);
      break;
    }
  }
  return p;
}

inline std::vector<std::uint32_t> random_clustering(const G &g) {
  sim::NoPreempt np;
  std::vector<std::uint32_t> c(g.n);
  const int mode = static_cast<int>(sim::range(0, 4));
  for (std::size_t u = 0; u < g.n; ++u) {
    switch (mode) {
    case 0:
      c[u] = u;
      break;
    case 1:
      c[u] = 0;
      break;
    case 2:
      c[u] = sim::range(0, g.n - 1);
      break;
    case 3:
      c[u] = sim::range(0, std::max<std::size_t>(1, g.n / 4) - 1);
      break;
    default: // pick a neighbor's id
      c[u] = g.deg(u) > 0 && sim::coin(0.7) ? g.adj[g.xadj[u] + sim::range(0, g.deg(u) - 1)] : u;
      break;
    }
  }
  return c;
}

} // namespace gen
