// C35: the graph tools succeed only with complete, correct results.
#include "app_common.h"

#include <cmath>

int sim_main_shm_connected_components_tool(int, char **);
int sim_main_shm_graph_attach_weights_tool(int, char **);
int sim_main_shm_graph_compression_tool(int, char **);
int sim_main_shm_graph_properties_tool(int, char **);
int sim_main_shm_graph_rearrangement_tool(int, char **);
int sim_main_shm_partition_properties_tool(int, char **);

namespace {
using namespace app;

std::string tail(const std::string &s) { return s.size() > 300 ? s.substr(s.size() - 300) : s; }

// A number that any renaming of the nodes preserves: equal graphs have equal signatures.
std::multiset<std::uint64_t> signature(const G &g) {
  const auto mix = [](std::uint64_t x) {
    x = (x ^ (x >> 31)) * 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 29)) * 0xbf58476d1ce4e5b9ull;
    return x ^ (x >> 32);
  };
  std::vector<std::uint64_t> c(g.n), d(g.n);
  for (std::size_t u = 0; u < g.n; ++u) c[u] = mix(g.vw[u] + 1);
  for (int round = 0; round < 4; ++round) {
    for (std::size_t u = 0; u < g.n; ++u) {
      std::uint64_t s = 0;
      for (std::size_t e = g.xadj[u]; e < g.xadj[u + 1]; ++e) s += mix(c[g.adj[e]] * 31 + g.ew[e]);
      d[u] = mix(c[u] * 3 + s);
    }
    std::swap(c, d);
  }
  return {c.begin(), c.end()};
}

// `h` is `g` up to node names. If all node weights differ, they determine the names.
void check_isomorphic(const G &h, const G &g, const char *what) {
  SIM_CHECK(h.n == g.n && h.m() == g.m(), "wrong-content", sim::fmt("the %s has %zu nodes and %zu edges, not %zu and %zu", what, h.n, h.m(), g.n, g.m()));
  std::map<i64, std::size_t> at;
  for (std::size_t u = 0; u < h.n; ++u) at[h.vw[u]] = u;
  if (g.n > 1 && at.size() == g.n) {
    std::vector<std::uint64_t> to(g.n);
    for (std::size_t u = 0; u < g.n; ++u) {
      SIM_CHECK(at.count(g.vw[u]), "wrong-content", sim::fmt("the %s has other node weights", what));
      to[u] = at[g.vw[u]];
    }
    check_content(h, renamed(g, to), what);
    return;
  }
  SIM_CHECK(signature(h) == signature(g), "wrong-content", sim::fmt("the %s is another graph", what));
}

void check_bucket_order(const G &h, const char *what) {
  auto key = [&](std::size_t u) { return h.deg(u) == 0 ? 1000 : bucket_of(h.deg(u)); };
  for (std::size_t u = 1; u < h.n; ++u)
    SIM_CHECK(key(u - 1) <= key(u), "wrong-order", sim::fmt("%s: nodes %zu and %zu are not in degree-bucket order", what, u - 1, u));
}

// Node sets of the connected components, by their smallest node.
std::vector<std::vector<std::size_t>> components(const G &g) {
  std::vector<std::vector<std::size_t>> r;
  std::vector<bool> seen(g.n, false);
  for (std::size_t s = 0; s < g.n; ++s) {
    if (seen[s]) continue;
    std::vector<std::size_t> c{s};
    seen[s] = true;
    for (std::size_t i = 0; i < c.size(); ++i)
      for (std::size_t e = g.xadj[c[i]]; e < g.xadj[c[i] + 1]; ++e)
        if (!seen[g.adj[e]]) {
          seen[g.adj[e]] = true;
          c.push_back(g.adj[e]);
        }
    std::sort(c.begin(), c.end());
    r.push_back(c);
  }
  return r;
}

G induced(const G &g, const std::vector<std::size_t> &nodes) {
  G r;
  std::map<std::size_t, std::size_t> name;
  for (std::size_t i = 0; i < nodes.size(); ++i) name[nodes[i]] = i;
  r.n = nodes.size();
  r.xadj.assign(1, 0);
  for (auto u : nodes) {
    r.vw.push_back(g.vw[u]);
    for (std::size_t e = g.xadj[u]; e < g.xadj[u + 1]; ++e) {
      r.adj.push_back(name.at(g.adj[e]));
      r.ew.push_back(g.ew[e]);
    }
    r.xadj.push_back(r.adj.size());
  }
  return r;
}

void draw_faults() {
  sim::fs::Faults f;
  if (sim::coin(0.3)) {
    f.read_short = f.write_short = sim::coin() ? 0.4 : 0.1;
    f.read_eintr = f.write_eintr = sim::coin() ? 0.3 : 0;
  }
  if (sim::coin(0.25)) {
    switch (sim::range(0, 6)) {
    case 0: f.open_fail = 0.3; break;
    case 1: f.write_eio = 0.3; break;
    case 2: f.close_fail = 0.3; break;
    case 3: f.disk_capacity = static_cast<std::int64_t>(sim::range(0, 300)); break;
    case 4: f.mmap_fail = 0.3; break;
    case 5: f.fstat_fail = 0.3; break;
    default: f.open_fail = f.read_eio = f.write_eio = f.close_fail = 0.1; break;
    }
  }
  sim::fs::faults = f;
}

void run() {
  const int P = static_cast<int>(sim::range(1, 4));
  sim::tbb_configure(P);
  sim::fs::reset();
  const int tool = static_cast<int>(sim::range(0, 5));
  static const Main mains[] = {sim_main_shm_connected_components_tool, sim_main_shm_graph_attach_weights_tool, sim_main_shm_graph_compression_tool,
                               sim_main_shm_graph_properties_tool, sim_main_shm_graph_rearrangement_tool, sim_main_shm_partition_properties_tool};
  static const char *names[] = {"components", "attach-weights", "compression", "properties", "rearrangement", "partition-properties"};
  gen::Opts o;
  o.max_n = sim::coin(0.1) ? 1500 : sim::coin(0.3) ? 80 : 25;
  o.max_m = 3 * o.max_n;
  o.shuffle_neighbors = true;
  o.allow_empty = true;
  o.p_vw = o.p_ew = 0.5;
  o.max_vw = o.max_ew = sim::coin() ? 9 : 2000;
  G g = gen::random_graph(o);
  if (sim::coin(0.4) && g.n > 1) { // all different
    g.has_vw = true;
    for (std::size_t u = 0; u < g.n; ++u) g.vw[u] = static_cast<i64>(2 + 3 * u);
    for (std::size_t u = g.n - 1; u > 0; --u) std::swap(g.vw[u], g.vw[sim::range(0, u)]);
  }
  const bool can_compress = tool == 0 || tool == 3 || tool == 5, has_out = tool == 1 || tool == 2 || tool == 4 || (tool == 0 && sim::coin(0.8));
  Format format = static_cast<Format>(can_compress && sim::coin(0.15) ? 2 : sim::range(0, 1));
  const Format out_format = static_cast<Format>(sim::range(0, 1));
  std::string must_fail;
  Args a;
  a << names[tool];
  const std::string graph_file = sim::coin(0.02) ? "/sim/missing" : put_graph(g, format, "/sim/graph");
  if (graph_file == "/sim/missing") must_fail = "the file is missing";
  a << "-G" << graph_file;
  if (format == Format::PARHIP || sim::coin(0.2)) a << "-f" << format_name(format);
  if (can_compress) {
    const bool c = sim::coin(format == Format::COMPRESSED ? 0.9 : 0.3);
    if (c) a << "-c";
    if (format == Format::COMPRESSED && !c) must_fail = "compression is disabled";
  }
  const int t = static_cast<int>(sim::range(1, P));
  a << "-t" << std::to_string(t);
  if (has_out) a << (tool == 4 && sim::coin() ? "-O" : "--out") << "/sim/out";
  if (has_out && tool != 2 && (out_format == Format::PARHIP || sim::coin(0.2))) a << "--out-f" << format_name(out_format);
  if (sim::coin(0.2)) sim::fs::put("/sim/out", "a leftover\nof an earlier run\n");
  // ---- options of one tool
  i64 lo[2] = {1, 1}, hi[2] = {65536, 65536};
  bool buckets = false;
  std::vector<std::uint32_t> part;
  switch (tool) {
  case 1: {
    static const char *ds[] = {"uniform", "alternating", "exponential"};
    const int d = static_cast<int>(sim::range(0, 2));
    a << "-d" << ds[d];
    if (sim::coin()) a << "-s" << std::to_string(sim::range(0, 100));
    if (d == 0) {
      if (sim::coin()) {
        lo[0] = static_cast<i64>(sim::range(1, 20));
        hi[0] = lo[0] + static_cast<i64>(sim::range(0, 20));
        a << "--u-min" << std::to_string(lo[0]) << "--u-max" << std::to_string(hi[0]);
      }
      lo[1] = lo[0], hi[1] = hi[0];
    } else if (d == 1) {
      hi[0] = 1, lo[1] = 65536;
      if (sim::coin()) {
        lo[0] = static_cast<i64>(sim::range(1, 20));
        hi[0] = lo[0] + static_cast<i64>(sim::range(0, 20));
        lo[1] = hi[0] + static_cast<i64>(sim::range(1, 1000));
        hi[1] = lo[1] + static_cast<i64>(sim::range(0, 20));
        a << "--a-min-small" << std::to_string(lo[0]) << "--a-max-small" << std::to_string(hi[0]);
        a << "--a-min-large" << std::to_string(lo[1]) << "--a-max-large" << std::to_string(hi[1]);
      }
    } else {
      hi[0] = hi[1] = 1ll << 31;
      if (sim::coin()) a << "--e-lambda" << (sim::coin() ? "0.5" : "0.01");
    }
    break;
  }
  case 2:
  case 4: {
    if (sim::coin(0.6)) {
      const int i = static_cast<int>(sim::range(0, 1));
      static const char *orders[] = {"natural", "external-deg-buckets", "deg-buckets"};
      const char *order = orders[tool == 4 && sim::coin() ? 2 : i];
      a << "--node-order" << order;
      buckets = order[0] == 'd' || (order[0] == 'e' && format == Format::PARHIP);
    } else {
      buckets = tool == 4;
    }
    if (tool == 4 && sim::coin()) a << "--edge-order" << (sim::coin() ? "natural" : "compression");
    break;
  }
  case 5: {
    const bool sizes = sim::coin(0.4);
    const BlockID k = static_cast<BlockID>(sim::range(1, 6));
    for (std::size_t u = 0; u < g.n; ++u) part.push_back(static_cast<std::uint32_t>(sim::range(0, k - 1)));
    if (sizes) std::sort(part.begin(), part.end());
    std::vector<std::uint32_t> stored = part;
    if (sim::coin(0.1)) {
      if (sim::coin() && !stored.empty()) stored.resize(sim::range(0, stored.size() - 1));
      else stored.push_back(sizes && !stored.empty() ? stored.back() : 0);
      must_fail = "the partition has another number of nodes";
    }
    std::string content;
    if (sizes) {
      std::vector<std::size_t> count(stored.empty() ? 0 : stored.back() + 1, 0);
      for (auto b : stored) ++count[b];
      for (auto c : count) content += std::to_string(c) + "\n";
    } else {
      for (auto b : stored) content += std::to_string(b) + "\n";
    }
    sim::fs::put("/sim/partition", content);
    if (sim::coin(0.03)) must_fail = "no partition is given";
    else a << (sizes ? "--block-sizes" : "-P") << "/sim/partition";
    break;
  }
  default: break;
  }
  sim::note(sim::fmt("P=%d: %s; %s%s%s", P, a.str().c_str(), g.describe().c_str(), must_fail.empty() ? "" : " must fail: ", must_fail.c_str()));
  sim::count((std::string("tool:") + names[tool]).c_str());
  if (t > 1 && g.m() > 0) sim::mark_nontrivial();
  sim::count(must_fail.empty() ? "input:good" : "input:bad");
  draw_faults();
  std::string text;
  {
    Capture cap;
    app::run(mains[tool], a, [&](const std::string &why) {
      sim::count("outcome:failure-reported");
      SIM_CHECK(!must_fail.empty() || sim::fs::fired.hard() > 0, "spurious-failure", sim::fmt("failed without an I/O error (%s): %s", why.c_str(), tail(cap.out.str()).c_str()));
    });
    text = cap.out.str();
  }
  sim::fs::faults = {};
  sim::count("outcome:success");
  SIM_CHECK(must_fail.empty(), "missed-error", "exit status 0 although: " + must_fail);
  SIM_CHECK(sim::fs::open_files() == 0, "unflushed", "a file is still open");
  for (const auto &file : sim::fs::files())
    SIM_CHECK(file == graph_file || file == "/sim/out" || file == "/sim/partition", "stray-file", "a file that nobody asked for was written: " + file);
  const auto expect = [&](const char *label, const std::string &value) {
    sim::NoPreempt np;
    const auto f = field(text, label);
    SIM_CHECK(f && *f == value, "wrong-report", sim::fmt("%s '%s', expected '%s'", label, f.value_or("(nothing)").c_str(), value.c_str()));
  };
  const auto close_to = [&](const char *label, double value) {
    sim::NoPreempt np;
    const auto f = field(text, label);
    SIM_CHECK(f && std::abs(std::strtod(f->c_str(), nullptr) - value) <= 1e-3 * (1 + std::abs(value)), "wrong-report",
              sim::fmt("%s '%s', expected %g", label, f.value_or("(nothing)").c_str(), value));
  };
  G h;
  if (has_out) {
    sim::NoPreempt np;
    if (tool != 2) {
      SIM_CHECK(read_graph_file(out_format, sim::fs::get("/sim/out"), h), "malformed-output", "the written graph file is malformed");
    } else {
      sim::exit_hook = [](int) { sim::fail("malformed-output", "the written compressed graph cannot be read"); };
      const auto c = sio::compressed_binary::read("/sim/out");
      sim::exit_hook = nullptr;
      h = model_of(c);
    }
  }
  std::string first;
  if (tool == 1) first = sim::fs::get("/sim/out");
  switch (tool) {
  case 0: {
    sim::NoPreempt np;
    const auto cs = components(g);
    std::size_t largest = 0;
    for (const auto &c : cs) largest = std::max(largest, c.size());
    expect("Number of connected components:", std::to_string(cs.size()));
    expect("Largest connected component:", std::to_string(largest));
    std::map<std::size_t, std::size_t> hist;
    for (const auto &c : cs) ++hist[std::bit_width(c.size()) - 1];
    expect("Isolated nodes:", std::to_string(hist[0]));
    for (std::size_t b = 1; (1ull << b) <= largest; ++b)
      expect(sim::fmt("%zu-%zu nodes:", std::size_t(1) << b, std::size_t(2) << b).c_str(), std::to_string(hist[b]));
    if (has_out) {
      if (largest == 0) {
        SIM_CHECK(h.n == 0, "wrong-content", "the largest component of the empty graph is not empty");
        break;
      }
      bool some = false;
      for (const auto &c : cs)
        if (c.size() == largest) {
          const G i = induced(g, c);
          some = some || (i.n == h.n && i.m() == h.m() && signature(i) == signature(h));
        }
      SIM_CHECK(some, "wrong-content", "the written graph is not a largest connected component");
    }
    break;
  }
  case 1: {
    {
      sim::NoPreempt np;
      const std::string bad = defect(h);
      SIM_CHECK(bad.empty(), "not-a-graph", "the weighted graph: " + bad);
      for (auto w : h.ew) SIM_CHECK((w >= lo[0] && w <= hi[0]) || (w >= lo[1] && w <= hi[1]), "wrong-weight", sim::fmt("edge weight %ld", (long)w));
      G plain = h;
      plain.ew = g.ew;
      SIM_CHECK(plain.m() == g.m(), "wrong-content", "another number of edges");
      for (std::size_t u = 0; u < g.n; ++u) {
        auto row = [&](const G &x) {
          std::vector<std::size_t> v(x.adj.begin() + x.xadj[u], x.adj.begin() + x.xadj[u + 1]);
          std::sort(v.begin(), v.end());
          return v;
        };
        SIM_CHECK(h.n == g.n && row(h) == row(g), "wrong-content", sim::fmt("node %zu has other neighbors", u));
      }
      SIM_CHECK(h.vw == g.vw, "wrong-content", "other node weights");
    }
    // the seed decides the weights
    Capture cap;
    app::run(mains[tool], a, [&](const std::string &why) { SIM_CHECK(false, "spurious-failure", "the second run failed: " + why); });
    SIM_CHECK(sim::fs::get("/sim/out") == first, "not-repeatable", "the same seed and thread count lead to other weights");
    break;
  }
  case 2:
  case 4: {
    sim::NoPreempt np;
    if (buckets) {
      check_bucket_order(h, names[tool]);
      check_isomorphic(h, g, names[tool]);
    } else {
      check_content(h, g, names[tool]);
    }
    break;
  }
  case 3: {
    sim::NoPreempt np;
    std::size_t iso = 0, max = 0;
    for (std::size_t u = 0; u < g.n; ++u) {
      iso += g.deg(u) == 0;
      max = std::max(max, g.deg(u));
    }
    expect("Number of nodes:", std::to_string(g.n));
    expect("Number of edges:", std::to_string(g.m()));
    expect("Max degree:", std::to_string(max));
    expect("Isolated nodes:", std::to_string(iso));
    if (g.n > 0) close_to("Average degree:", 1.0 * g.m() / g.n);
    if (g.total_vw() != static_cast<i64>(g.n)) {
      const auto p = text.find("Number of nodes:");
      const auto f = field(text.substr(p), "(total weight:");
      SIM_CHECK(f && *f == std::to_string(g.total_vw()) + ")", "wrong-report", "the total node weight is wrong");
    }
    if (g.total_ew() != static_cast<i64>(g.m())) {
      const auto p = text.find("Number of edges:");
      const auto f = field(text.substr(p), "(total weight:");
      SIM_CHECK(f && *f == std::to_string(g.total_ew()) + ")", "wrong-report", "the total edge weight is wrong");
    }
    break;
  }
  default: {
    sim::NoPreempt np;
    const std::size_t k = g.n == 0 ? 0 : *std::max_element(part.begin(), part.end()) + 1;
    expect("Number of blocks:", std::to_string(k));
    expect("Edge cut:", std::to_string(g.cut(part)));
    if (g.n > 0) {
      const auto bw = g.block_weights(part, k);
      close_to("Imbalance:", *std::max_element(bw.begin(), bw.end()) / std::ceil(1.0 * g.total_vw() / k) - 1.0);
    }
  }
  }
}
} // namespace

sim::Check sim::the_check = {"app_tools", run, 100'000'000, "hang"};
