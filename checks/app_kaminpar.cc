// C34: the KaMinPar program succeeds only with complete, consistent results.
#include "app_common.h"

#include <cmath>

int sim_main_KaMinPar(int, char **);

namespace {
using namespace app;

struct Job {
  G g; // as stored
  Format format;
  std::vector<std::string> presets;
  BlockID k = 0;
  std::vector<i64> limits; // per block
  Args args;
  bool compress = false, ignore_ew = false, validate = false;
  std::string must_fail; // reason
};

std::string tail(const std::string &s) { return s.size() > 300 ? s.substr(s.size() - 300) : s; }

// A configuration written by --dump-config means the same as the options it was dumped from.
void dumped_configuration() {
  const int P = static_cast<int>(sim::range(1, 4));
  sim::tbb_configure(P);
  sim::fs::reset();
  gen::Opts o;
  o.max_n = 40;
  o.max_m = 3 * o.max_n;
  const G g = gen::random_graph(o);
  Args options;
  static const std::vector<std::string> names = {"default", "fast",  "strong", "largek",          "largek-strong", "largek-fast",      "jet", "4xjet",
                                                 "noref",   "fm", "vcycle", "restricted-vcycle", "terapart",    "terapart-strong", "terapart-largek"};
  const std::string preset = names[sim::range(0, names.size() - 1)];
  options << "-P" << preset << sim::fmt("--c-contraction-limit=%d", static_cast<int>(sim::range(1, 20)));
  const auto pick = [&](double p, const char *option, std::initializer_list<const char *> values) {
    if (!sim::coin(p)) return;
    options << option << *(values.begin() + sim::range(0, values.size() - 1));
  };
  const auto flag = [&](double p, const char *option) {
    if (sim::coin(p)) options << option;
  };
  pick(0.2, "--p-mode", {"deep", "kway"});
  pick(0.2, "--p-deep-initial-partitioning-mode", {"sequential", "sync-parallel", "async-parallel"});
  pick(0.2, "--p-deep-initial-partitioning-load", {"0.5", "1", "2"});
  pick(0.2, "--p-min-consecutive-seq-bipartitioning-levels", {"0", "1", "2"});
  flag(0.2, "--p-refine-after-extending");
  pick(0.2, "--node-order", {"natural", "deg-buckets"});
  pick(0.2, "--edge-order", {"natural", "compression"});
  pick(0.1, "--c-algorithm", {"noop", "clustering"});
  pick(0.2, "--c-convergence-threshold", {"0.01", "0.3"});
  pick(0.2, "--c-cluster-weight-limit", {"epsilon-block-weight", "static-block-weight", "one", "zero"});
  pick(0.2, "--c-cluster-weight-multiplier", {"0.5", "2"});
  flag(0.1, "--c-forced-kc-level");
  flag(0.1, "--c-forced-pc-level");
  pick(0.2, "--c-lp-num-iterations", {"1", "3"});
  pick(0.2, "--c-lp-max-num-neighbors", {"3", "100"});
  pick(0.2, "--c-lp-tie-breaking-strategy", {"geometric", "uniform"});
  pick(0.2, "--c-lp-two-hop-strategy", {"disable", "match", "match-threadwise", "cluster", "cluster-threadwise"});
  pick(0.2, "--c-lp-isolated-nodes-strategy", {"keep", "match", "cluster", "match-during-two-hop", "cluster-during-two-hop"});
  pick(0.2, "--c-contraction-algorithm", {"buffered", "unbuffered", "unbuffered-naive"});
  pick(0.2, "--c-con-edge-buffer-fill-fraction", {"0.1", "1"});
  flag(0.1, "--i-r-disable");
  const BlockID k = static_cast<BlockID>(sim::range(2, 6));
  if (k > 4) // intermediate block counts must be smaller than k
    pick(0.2, "--p-vcycles", {"2", "4"});
  else if (k > 2)
    pick(0.2, "--p-vcycles", {"2"});
  flag(0.2, "--p-restrict-vcycle-refinement");
  if (sim::coin(0.2)) {
    options << "--r-algorithms";
    for (std::uint64_t i = sim::range(1, 3); i > 0; --i) {
      static const char *refiners[] = {"noop", "lp", "fm", "jet", "greedy-balancer"};
      options << refiners[sim::range(0, 4)];
    }
  }
  pick(0.2, "--r-lp-num-iterations", {"1", "2"});
  pick(0.2, "--r-fm-num-iterations", {"1", "2"});
  pick(0.2, "--r-fm-num-seed-nodes", {"1", "5"});
  pick(0.2, "--r-jet-num-iterations", {"1", "2"});
  const std::string file = put_graph(g, Format::METIS, "/sim/graph");
  const std::string seed = std::to_string(sim::range(0, 50));
  sim::note(sim::fmt("P=%d: %s; k=%u seed=%s %s", P, options.str().c_str(), k, seed.c_str(), g.describe().c_str()));
  sim::mark_nontrivial();
  sim::count("mode:dumped-configuration");
  Args dump;
  dump << "KaMinPar" << "--dump-config";
  dump.v.insert(dump.v.end(), options.v.begin(), options.v.end());
  std::string config;
  {
    Capture cap;
    run_to_exit(sim_main_KaMinPar, dump);
    config = cap.out.str();
  }
  sim::fs::put("/sim/config", config);
  const auto partition = [&](bool dumped) {
    Args a;
    a << "KaMinPar" << "-G" << file << "-k" << std::to_string(k) << "-s" << seed << "-o" << "/sim/partition";
    if (dumped)
      a << "-P" << preset << "-C" << "/sim/config"; // the dump holds what can be configured; presets set more than that
    else
      a.v.insert(a.v.end(), options.v.begin(), options.v.end());
    Capture cap;
    app::run(sim_main_KaMinPar, a, [&](const std::string &why) {
      SIM_CHECK(false, "spurious-failure", sim::fmt("%s: %s: %s", dumped ? "dumped configuration" : "options", why.c_str(), tail(cap.out.str()).c_str()));
    });
    for (const auto &f : sim::fs::files())
      SIM_CHECK(f == file || f == "/sim/partition" || f == "/sim/config", "stray-file", "a file that nobody asked for was written: " + f);
    return sim::fs::get("/sim/partition");
  };
  const std::string p1 = partition(false), p2 = partition(!sim::coin(0.2));
  SIM_CHECK(p1 == p2, "dumped-configuration", "the dumped configuration (or a second run) leads to another partition than the options it was dumped from");
}

void run() {
  if (sim::coin(0.15)) return dumped_configuration();
  const int P = static_cast<int>(sim::range(1, 4));
  sim::tbb_configure(P);
  sim::fs::reset();
  Job j;
  gen::Opts o;
  o.max_n = sim::coin(0.3) ? 60 : 25;
  o.max_m = 3 * o.max_n;
  o.shuffle_neighbors = true;
  o.p_vw = o.p_ew = 0.5;
  o.max_vw = o.max_ew = sim::coin() ? 9 : 2000;
  j.g = gen::random_graph(o);
  G &g = j.g;
  j.format = static_cast<Format>(sim::coin(0.1) ? 2 : sim::range(0, 1));
  Args &a = j.args;
  a << "KaMinPar";
  // ---- configuration
  static const std::vector<std::string> names = {"default", "fast",  "strong", "largek",          "largek-strong", "largek-fast",      "jet",
                                                 "noref",   "fm", "vcycle", "restricted-vcycle", "terapart",    "terapart-strong", "terapart-largek"};
  const std::string preset = sim::coin(0.4) ? "default" : names[sim::range(0, names.size() - 1)];
  if (preset != "default" || sim::coin()) a << "-P" << preset;
  j.compress = preset.rfind("terapart", 0) == 0;
  if (!j.compress && sim::coin(j.format == Format::COMPRESSED ? 0.9 : 0.1)) {
    a << "-c";
    j.compress = true;
  }
  a << sim::fmt("--c-contraction-limit=%d", static_cast<int>(sim::range(1, 20)));
  if (sim::coin(0.15)) a << "-m" << (sim::coin() ? "kway" : "deep");
  const char *order = nullptr;
  if (sim::coin(0.3)) {
    static const char *orders[] = {"natural", "deg-buckets", "external-deg-buckets"};
    order = orders[sim::range(0, 2)];
    a << "--node-order" << order;
  }
  if (sim::coin(0.1)) a << "--edge-order" << "compression";
  if (sim::coin(0.5)) a << "-s" << std::to_string(sim::range(0, 100));
  const int t = static_cast<int>(sim::range(1, P));
  if (t > 1 || sim::coin(0.3)) a << "-t" << std::to_string(t);
  const bool quiet = sim::coin(0.2);
  const int verbose = quiet ? 0 : static_cast<int>(sim::coin(0.5) ? sim::range(1, 2) : 0);
  if (quiet) a << "-q";
  if (verbose > 0) a << "--verbose";
  if (verbose > 1) a << "--verbose";
  if (sim::coin(0.2)) a << "-T";
  if (sim::coin(0.2)) a << "--no-huge-pages";
  // ---- the graph
  const bool damage = sim::coin(0.1) && g.m() > 0;
  if (damage && j.format != Format::COMPRESSED) { // not an undirected graph
    sim::NoPreempt np;
    j.validate = true;
    const std::size_t e = sim::range(0, g.adj.size() - 1);
    if (g.has_ew && sim::coin()) {
      g.ew[e] += 1;
    } else {
      std::size_t u = 0;
      while (g.xadj[u + 1] <= e) ++u;
      std::size_t v = sim::range(0, g.n - 1);
      if (v != u) g.adj[e] = v;
    }
  } else if (sim::coin(0.2)) {
    j.validate = true;
  }
  if (j.validate) a << "--validate";
  if (sim::coin(0.2)) {
    a << "--ignore-edge-weights";
    j.ignore_ew = !j.compress;
  }
  G seen = g; // as partitioned
  if (j.ignore_ew) std::fill(seen.ew.begin(), seen.ew.end(), 1);
  const std::string bad = defect(seen);
  if (!bad.empty() && j.validate && j.compress) return sim::discard("compressed graphs are not validated");
  if (!bad.empty()) j.must_fail = bad;
  const std::string graph_file = sim::coin(0.02) ? "/sim/missing" : put_graph(g, j.format, "/sim/graph");
  if (graph_file == "/sim/missing") j.must_fail = "the file is missing";
  a << "-G" << graph_file;
  if (j.format == Format::PARHIP || sim::coin(0.2)) a << "-f" << format_name(j.format);
  if (j.format == Format::COMPRESSED && !j.compress) j.must_fail = "compression is disabled";
  // ---- the blocks
  const i64 W = g.total_vw();
  const int how = static_cast<int>(sim::coin(0.6) ? 0 : sim::range(0, 3));
  BlockID k = static_cast<BlockID>(sim::range(2, 8));
  double eps = 0.03;
  {
    sim::NoPreempt np;
    if (how <= 1) {
      if (how == 1 || sim::coin()) {
        const std::string e = sim::fmt("0.%02d", static_cast<int>(sim::range(1, 50)));
        a << "-e" << e;
        eps = std::strtod(e.c_str(), nullptr);
      }
      if (sim::coin(0.02)) k = static_cast<BlockID>(sim::range(0, 1));
      if (k < 2) j.must_fail = "k < 2";
      a << "-k" << std::to_string(k);
      if (sim::coin(0.03)) {
        a << "-B" << "100000" << "100000";
        j.must_fail = "two ways to specify the blocks";
      }
      const i64 perfect = std::ceil(1.0 * W / std::max<BlockID>(1, k));
      j.limits.assign(k, static_cast<BlockWeight>((1.0 + eps) * perfect));
    } else {
      std::vector<i64> share(k);
      i64 sum = 0;
      for (auto &s : share) sum += (s = static_cast<i64>(sim::range(1, 6)));
      const bool too_small = sim::coin(0.1);
      const double scale = too_small ? 0.8 : 1.0 + 0.01 * static_cast<double>(sim::range(1, 60));
      a << (how == 2 ? "-B" : "-b");
      i64 total = 0;
      double ftotal = 0;
      for (BlockID b = 0; b < k; ++b) {
        if (how == 2) {
          const i64 l = static_cast<i64>(scale * static_cast<double>(W) * static_cast<double>(share[b]) / static_cast<double>(sum)) + (too_small ? 0 : 1);
          j.limits.push_back(l);
          a << std::to_string(l);
          total += l;
        } else {
          const std::string f = sim::fmt("%.4f", scale * static_cast<double>(share[b]) / static_cast<double>(sum) + (too_small ? 0 : 0.0001));
          a << f;
          ftotal += std::strtod(f.c_str(), nullptr);
          j.limits.push_back(static_cast<i64>(std::ceil(std::strtod(f.c_str(), nullptr) * static_cast<double>(W))));
        }
      }
      if (how == 2 && total <= W) j.must_fail = "the block weights are too small";
      if (how == 3 && ftotal <= 1.0) j.must_fail = "the block weight factors are too small";
    }
  }
  j.k = k;
  // ---- the results
  const bool out_partition = sim::coin(0.8), out_sizes = sim::coin(0.4), out_graph = sim::coin(0.4), out_map = sim::coin(out_graph ? 0.7 : 0.1);
  const Format out_format = static_cast<Format>(sim::range(0, 1));
  if (out_partition) a << "-o" << "/sim/partition";
  if (out_sizes) a << "--output-block-sizes" << "/sim/sizes";
  if (out_graph) a << "--output-rearranged-graph" << "/sim/rearranged";
  if (out_map) a << "--output-rearranged-graph-mapping" << "/sim/mapping";
  if (out_format == Format::PARHIP || sim::coin(0.2)) a << "--output-graph-file-format" << format_name(out_format);
  unsigned dumps = 0; // toplevel graph, toplevel partition, coarsest graph, coarsest partition, hierarchies
  if (sim::coin(0.2)) {
    static const char *flags[] = {"--d-dump-toplevel-graph", "--d-dump-toplevel-partition", "--d-dump-coarsest-graph",
                                  "--d-dump-coarsest-partition", "--d-dump-graph-hierarchy", "--d-dump-partition-hierarchy"};
    if (sim::coin(0.3)) {
      a << "--d-dump-everything";
      dumps = 63;
    } else {
      for (int i = 0; i < 6; ++i)
        if (sim::coin(0.4)) {
          a << flags[i];
          dumps |= 1u << i;
        }
    }
    a << "--d-dump-graph-filename" << "/sim/dump_graph" << "--d-dump-partition-filename" << "/sim/dump_part";
  }
  for (const char *f : {"/sim/partition", "/sim/sizes", "/sim/rearranged", "/sim/mapping"})
    if (sim::coin(0.2)) sim::fs::put(f, "a leftover\nof an earlier run\n");
  // ---- faults
  sim::fs::Faults f;
  if (sim::coin(0.3)) {
    f.read_short = f.write_short = sim::coin() ? 0.4 : 0.1;
    f.read_eintr = f.write_eintr = sim::coin() ? 0.3 : 0;
  }
  if (sim::coin(0.25)) {
    switch (sim::range(0, 6)) {
    case 0: f.open_fail = 0.3; break;
    case 1: f.write_eio = 0.3; break;
    case 2: f.close_fail = 0.3; break;
    case 3: f.disk_capacity = static_cast<std::int64_t>(sim::range(0, 300)); break;
    case 4: f.mmap_fail = 0.3; break;
    case 5: f.fstat_fail = 0.3; break;
    default: f.open_fail = f.read_eio = f.write_eio = f.close_fail = 0.1; break;
    }
  }
  sim::faults.clock_jumps = sim::coin(0.2);
  sim::note(sim::fmt("P=%d: %s; %s%s%s", P, a.str().c_str(), g.describe().c_str(), j.must_fail.empty() ? "" : " must fail: ", j.must_fail.c_str()));
  if (P > 1 && g.m() > 0) sim::mark_nontrivial();
  sim::count(j.must_fail.empty() ? "input:good" : "input:bad");
  sim::fs::faults = f;
  Capture cap;
  app::run(sim_main_KaMinPar, a, [&](const std::string &why) {
    sim::count("outcome:failure-reported");
    if (j.format == Format::COMPRESSED && out_graph) return; // not supported: rearranging needs an uncompressed graph
    SIM_CHECK(!j.must_fail.empty() || sim::fs::fired.hard() > 0, "spurious-failure",
              sim::fmt("failed without an I/O error (%s): %s", why.c_str(), tail(cap.out.str()).c_str()));
  });
  sim::fs::faults = {};
  sim::NoPreempt np;
  sim::count("outcome:success");
  SIM_CHECK(j.must_fail.empty(), "missed-error", "exit status 0 although: " + j.must_fail);
  SIM_CHECK(sim::fs::open_files() == 0, "unflushed", "a file is still open");
  for (const auto &file : sim::fs::files())
    SIM_CHECK(file == graph_file || file == "/sim/partition" || file == "/sim/sizes" || file == "/sim/rearranged" || file == "/sim/mapping" ||
                  (dumps != 0 && file.rfind("/sim/dump_", 0) == 0),
              "stray-file", "a file that nobody asked for was written: " + file);
  std::size_t top_n = SIZE_MAX;
  if (sim::fs::exists("/sim/dump_graph.toplevel.metis")) {
    G h;
    SIM_CHECK(read_graph_file(Format::METIS, sim::fs::get("/sim/dump_graph.toplevel.metis"), h) && defect(h).empty(), "wrong-dump", "the dumped toplevel graph is malformed");
    SIM_CHECK(h.m() == seen.m() && h.total_ew() == seen.total_ew() && h.n <= seen.n, "wrong-dump", "the dumped toplevel graph has other edges than the input graph");
    top_n = h.n;
  }
  for (const auto &file : sim::fs::files()) {
    if (file.rfind("/sim/dump_graph", 0) == 0) {
      G h;
      SIM_CHECK(read_graph_file(Format::METIS, sim::fs::get(file), h), "wrong-dump", "a dumped graph is malformed: " + file);
      const std::string bad = defect(h);
      SIM_CHECK(bad.empty(), "wrong-dump", file + ": " + bad);
      SIM_CHECK(h.total_vw() <= seen.total_vw() && h.total_ew() <= seen.total_ew(), "wrong-dump", "a dumped graph is heavier than the input graph: " + file);
    } else if (file.rfind("/sim/dump_part", 0) == 0) {
      const auto r = numbers(sim::fs::get(file));
      SIM_CHECK(r, "wrong-dump", "a dumped partition is malformed: " + file);
      for (auto b : *r) SIM_CHECK(b < k, "wrong-dump", sim::fmt("%s: block %lu, k = %u", file.c_str(), (unsigned long)b, k));
      if (top_n != SIZE_MAX && file.find("toplevel") != std::string::npos)
        SIM_CHECK(r->size() == top_n, "wrong-dump", sim::fmt("%s has %zu nodes, the toplevel graph has %zu", file.c_str(), r->size(), top_n));
    }
  }
  // the partition
  std::vector<std::uint32_t> part;
  if (out_partition) {
    const auto r = numbers(sim::fs::get("/sim/partition"));
    SIM_CHECK(r && r->size() == g.n, "wrong-partition-file",
              sim::fmt("the partition file does not have one number for each of the %zu nodes", g.n));
    for (std::size_t u = 0; u < g.n; ++u) SIM_CHECK((*r)[u] < k, "invalid-block", sim::fmt("node %zu is in block %lu, k = %u", u, (unsigned long)(*r)[u], k));
    part.assign(r->begin(), r->end());
    const std::string all = cap.out.str(), text = all.find("RESULT cut=") != std::string::npos ? all.substr(all.rfind("RESULT cut=")) : all.substr(std::min(all.size(), all.rfind("Partition summary:")));
    const auto cut = field(text, "  Edge cut:"), feasible = field(text, "  Feasible:"), blocks = field(text, "  Number of blocks:");
    if (quiet) {
      SIM_CHECK(!cut, "not-quiet", "output despite -q");
    } else {
      const auto bw = g.block_weights(part, k);
      bool ok = true;
      for (BlockID b = 0; b < k; ++b) ok = ok && bw[b] <= j.limits[b];
      SIM_CHECK(cut && *cut == std::to_string(seen.cut(part)), "wrong-cut",
                sim::fmt("reported cut %s, the cut of the written partition is %ld", cut.value_or("(none)").c_str(), (long)seen.cut(part)));
      SIM_CHECK(feasible && *feasible == (ok ? "yes" : "no"), "wrong-feasibility",
                sim::fmt("reported feasible: %s, the written partition is %s", feasible.value_or("(none)").c_str(), ok ? "feasible" : "not feasible"));
      SIM_CHECK(blocks && *blocks == std::to_string(k), "wrong-k", sim::fmt("reported k = %s", blocks.value_or("(none)").c_str()));
      if (verbose > 0) {
        const auto c2 = field(text, "RESULT cut=");
        SIM_CHECK(c2 && *c2 == *cut, "wrong-cut", "the RESULT line has another cut");
      }
    }
  }
  if (out_sizes) {
    const auto r = numbers(sim::fs::get("/sim/sizes"));
    SIM_CHECK(r && r->size() == k, "wrong-block-sizes", sim::fmt("the block size file does not have one number for each of the %u blocks", k));
    std::vector<std::uint64_t> sizes(k, 0);
    for (auto b : part) ++sizes[b];
    std::uint64_t sum = 0;
    for (auto s : *r) sum += s;
    SIM_CHECK(out_partition ? *r == sizes : sum == g.n, "wrong-block-sizes", "the block sizes are not those of the partition");
  }
  if (out_graph) {
    G h;
    SIM_CHECK(read_graph_file(out_format, sim::fs::get("/sim/rearranged"), h), "wrong-rearranged-graph", "the rearranged graph file is malformed");
    SIM_CHECK(h.n == g.n && h.m() == g.m(), "wrong-rearranged-graph", "the rearranged graph has another size");
    if (out_map) {
      const auto r = numbers(sim::fs::get("/sim/mapping"));
      SIM_CHECK(r && r->size() == g.n, "wrong-mapping", "the mapping does not have one number per node");
      std::vector<std::uint32_t> block(g.n, 0);
      std::vector<bool> hit(g.n, false);
      for (std::size_t u = 0; u < g.n; ++u) {
        const auto v = (*r)[u];
        SIM_CHECK(v < g.n && !hit[v], "wrong-mapping", "the mapping is not a permutation");
        hit[v] = true;
        if (out_partition) block[v] = part[u];
      }
      SIM_CHECK(std::is_sorted(block.begin(), block.end()), "wrong-mapping", "the blocks are not consecutive");
      check_content(h, renamed(g, *r), "rearranged graph");
    }
  }
}
} // namespace

sim::Check sim::the_check = {"app_kaminpar", run, 400'000'000, "hang"};
