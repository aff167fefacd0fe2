// C32: the distributed readers load exactly the graph in the file (or report a failure), the distributed
// partition writer writes every block in global order (or reports a failure).
#define DIST_UTIL_GRAPH
#include "dist.h"
#include "dist_util.h"
#include "io_formats.h"

#include "apps/io/dist_io.h"
#include "apps/io/dist_metis_parser.h"
#include "apps/io/dist_parhip_parser.h"

#include <iostream>

using namespace dist_util;
using namespace fio;

namespace {
const char *kPath = "/sim/graph", *kOut = "/sim/out";

struct W : Base {
  G g, expected;
  bool metis = true, compressed = false, write = false;
  GraphDistribution distribution = GraphDistribution::BALANCED_NODES;
  Verdict verdict = Verdict::VALID;
  std::string damage = "none";
  std::vector<View> views;
  sim::fs::Faults faults;
  std::vector<std::vector<unsigned>> parts; // of every process, to be written
  std::vector<char> wrote;
};

// The failure is reported; under MPI this ends the whole job.
[[noreturn]] void reported(const W &w, const std::string &why) {
  sim::NoPreempt np;
  sim::count("outcome:reported");
  SIM_CHECK(w.verdict != Verdict::VALID || sim::fs::fired.hard() > 0, w.write ? "failed-write" : "rejected-valid",
            sim::fmt("failure without a reason: %s", why.c_str()));
  sim::done();
}
W *g_w;
void exit_called(int code) {
  sim::NoPreempt np;
  SIM_CHECK(code != 0, "success-exit", "failed with exit code 0");
  reported(*g_w, sim::fmt("exit(%d)", code));
}

bool symmetric(const G &g) {
  std::multiset<std::tuple<std::size_t, std::size_t, i64>> a, b;
  for (std::size_t u = 0; u < g.n; ++u)
    for (std::size_t e = g.xadj[u]; e < g.xadj[u + 1]; ++e) {
      a.insert({u, g.adj[e], g.ew[e]});
      b.insert({g.adj[e], u, g.ew[e]});
    }
  return a == b;
}

void draw_read(W &w) {
  w.metis = sim::coin(0.55);
  w.compressed = sim::coin();
  w.distribution = static_cast<GraphDistribution>(sim::range(0, 2));
  gen::Opts o;
  o.max_n = sim::coin(0.2) ? 80 : sim::coin(0.4) ? 6 : 20;
  o.max_m = 4 * o.max_n;
  o.shuffle_neighbors = true;
  o.p_vw = o.p_ew = 0.4;
  o.max_vw = o.max_ew = sim::coin() ? 9 : 2000;
  w.g = gen::random_graph(o);
  if (sim::coin(0.3)) { // isolated nodes at the end or at the start
    const std::size_t c = sim::range(1, 6);
    const bool front = sim::coin();
    G &g = w.g;
    if (front) {
      for (auto &v : g.adj) v += c;
      g.xadj.insert(g.xadj.begin(), c, 0);
      g.vw.insert(g.vw.begin(), c, g.has_vw ? 3 : 1);
    } else {
      g.xadj.insert(g.xadj.end(), c, g.xadj.back());
      g.vw.insert(g.vw.end(), c, g.has_vw ? 3 : 1);
    }
    g.n += c;
  }
  std::string content;
  bool wide = false;
  if (w.metis) {
    content = encode_metis(w.g, random_style());
  } else {
    Widths wd;
    wd.node = sizeof(NodeID), wd.edge = sizeof(EdgeID), wd.vw = sizeof(NodeWeight), wd.ew = sizeof(EdgeWeight);
    if (sim::coin(0.06)) {
      wide = true;
      switch (sim::range(0, 3)) {
      case 0: wd.node = 12 - wd.node; break;
      case 1: wd.edge = 12 - wd.edge; break;
      case 2: wd.vw = 12 - wd.vw; w.g.has_vw = true; break;
      default: wd.ew = 12 - wd.ew; w.g.has_ew = true; break;
      }
    }
    content = encode_parhip(w.g, wd);
  }
  const std::size_t full = content.size();
  bool missing = false;
  const int d = static_cast<int>(sim::range(0, 11));
  if (d >= 7 && d <= 9) {
    std::size_t to = sim::range(0, full - 1);
    if (sim::coin(0.3)) to = full - 1 - std::min<std::size_t>(full - 1, sim::range(0, 3));
    if (sim::coin(0.15)) to = std::min(full - 1, static_cast<std::size_t>(sim::range(0, 40)));
    content.resize(to);
    w.damage = sim::fmt("truncated to %zu of %zu bytes", to, full);
  } else if (d == 10 && w.metis) {
    w.damage = "edited";
    const int edits = static_cast<int>(sim::range(1, 2));
    for (int i = 0; i < edits && !content.empty(); ++i) {
      const std::size_t at = sim::range(0, content.size() - 1);
      static const std::string repl = "0123456789 \n%-a";
      switch (sim::range(0, 3)) {
      case 0: content.erase(at, 1); break;
      case 1: content.insert(at, 1, repl[sim::range(0, repl.size() - 1)]); break;
      case 2: {
        const std::size_t from = content.rfind('\n', at), to = content.find('\n', at);
        if (from != std::string::npos && to != std::string::npos && to > from) content.erase(from, to - from);
        break;
      }
      default: content[at] = repl[sim::range(0, repl.size() - 1)]; break;
      }
    }
  } else if (d == 11 && sim::coin(0.3)) {
    missing = true;
    w.damage = "missing";
  }
  if (missing)
    sim::fs::remove(kPath);
  else
    sim::fs::put(kPath, content);
  w.expected = w.g;
  if (missing || wide)
    w.verdict = Verdict::MALFORMED;
  else if (w.metis)
    w.verdict = parse_metis(content, w.expected);
  else if (content.size() < full)
    w.verdict = Verdict::MALFORMED;
  if (w.verdict == Verdict::VALID && w.damage != "none" && !symmetric(w.expected)) {
    w.verdict = Verdict::UNSPECIFIED; // no undirected graph
  }
  if (sim::coin(0.25)) {
    switch (sim::range(0, 3)) {
    case 0: w.faults.open_fail = 0.4; break;
    case 1: w.faults.mmap_fail = 0.4; break;
    case 2: w.faults.fstat_fail = 0.4; break;
    default: w.faults.open_fail = w.faults.mmap_fail = w.faults.fstat_fail = 0.05; break;
    }
  }
  sim::count(w.verdict == Verdict::VALID ? "file:valid" : w.verdict == Verdict::MALFORMED ? "file:malformed" : "file:unspecified");
  sim::note(sim::fmt("read %s %s distribution %d, %d of %d processes, threads %d, %s; %s", w.metis ? "METIS" : "ParHIP", w.compressed ? "compressed" : "csr",
                     static_cast<int>(w.distribution), w.P(), w.n, w.threads[0], w.damage.c_str(), w.g.describe().c_str()));
  if (w.P() > 1 && w.g.n > 2) sim::mark_nontrivial();
}

void draw_write(W &w) {
  w.write = true;
  std::size_t total = 0;
  w.parts.resize(w.P());
  const unsigned k = static_cast<unsigned>(sim::coin(0.2) ? sim::range(1, 3000) : sim::range(1, 9));
  const bool large = sim::coin(0.2);
  for (auto &p : w.parts) {
    const std::size_t n = sim::coin(0.2) ? 0 : large ? sim::range(1000, 5000) : sim::range(1, 60);
    const std::size_t mul = sim::range(1, 1000);
    for (std::size_t i = 0; i < n; ++i) p.push_back(static_cast<unsigned>((i * mul + i / 7) % k));
    total += n;
    sim::case_key(mul * 31 + n * 7919 + k);
  }
  if (sim::coin()) sim::fs::put(kOut, "7\n7\n7\nleftover of another file\n");
  if (sim::coin(0.5)) {
    w.faults.write_short = sim::coin() ? 0.5 : 0.1;
    w.faults.write_eintr = sim::coin() ? 0.3 : 0;
  }
  if (sim::coin(0.6)) {
    switch (sim::range(0, 4)) {
    case 0: w.faults.open_fail = 0.3; break;
    case 1: w.faults.write_eio = sim::coin() ? 0.5 : 0.1; break;
    case 2: w.faults.close_fail = 0.3; break;
    case 3: w.faults.disk_capacity = static_cast<std::int64_t>(sim::range(0, 3 * total)); break;
    default: w.faults.open_fail = w.faults.write_eio = w.faults.close_fail = 0.1; break;
    }
  }
  sim::note(sim::fmt("write, %d processes, %zu values", w.P(), total));
  if (w.P() > 1 && total > 1) sim::mark_nontrivial();
}
} // namespace

extern "C" {
sim::dist::Config dist_config = {60'000'000, "hang"};

void *dist_prepare() {
  auto *w = new W();
  g_w = w;
  sim::fs::reset();
  const bool write = sim::coin(0.15);
  draw_base(*w, 8, 3, write ? 0 : 0.15);
  w->views.resize(w->P());
  w->wrote.assign(w->P(), 0);
  if (write)
    draw_write(*w);
  else
    draw_read(*w);
  sim::fs::fired = {};
  sim::fs::faults = w->faults;
  return w;
}
int dist_ranks(void *w) { return static_cast<W *>(w)->n; }

void dist_rank(int r, void *wp) {
  W &w = *static_cast<W *>(wp);
  g_w = &w;
  sim::tbb_configure(w.threads[r]);
  MPI_Comm comm = make_comm(w, r);
  const int i = w.index(r);
  if (i < 0) {
    return;
  }
  std::cout.setstate(std::ios::badbit);
  std::cerr.setstate(std::ios::badbit);
  sim::exit_hook = exit_called;
  if (w.write) {
    try {
      dist::io::partition::write(kOut, w.parts[i]);
    } catch (const std::exception &e) {
      reported(w, e.what());
    }
    publish(w.wrote, i, char(1), [&] {
      sim::NoPreempt np;
      sim::fs::faults = {};
      std::vector<std::uint64_t> expected;
      for (auto &p : w.parts) expected.insert(expected.end(), p.begin(), p.end());
      const auto got = numbers(sim::fs::get(kOut));
      SIM_CHECK(got && *got == expected, "wrong-content",
                sim::fmt("the partition was written without an error, but the file does not list the blocks of all %zu nodes in order", expected.size()));
      sim::count("outcome:written");
    });
    return;
  }
  std::unique_ptr<DistributedGraph> graph;
  try {
    const std::string path = kPath;
    if (w.metis) {
      if (w.compressed)
        graph = std::make_unique<DistributedGraph>(std::make_unique<DistributedCompressedGraph>(dist::io::metis::compress_read(path, w.distribution, false, comm)));
      else
        graph = std::make_unique<DistributedGraph>(std::make_unique<DistributedCSRGraph>(dist::io::metis::csr_read(path, w.distribution, false, comm)));
    } else {
      if (w.compressed)
        graph = std::make_unique<DistributedGraph>(std::make_unique<DistributedCompressedGraph>(dist::io::parhip::compressed_read(path, w.distribution, false, comm)));
      else
        graph = std::make_unique<DistributedGraph>(std::make_unique<DistributedCSRGraph>(dist::io::parhip::csr_read(path, w.distribution, false, comm)));
    }
  } catch (const std::exception &e) {
    reported(w, e.what());
  }
  publish(w.views, i, w.verdict == Verdict::VALID ? view(*graph) : View(), [&] {
    sim::NoPreempt np;
    sim::count("outcome:returned");
    SIM_CHECK(w.verdict != Verdict::MALFORMED, "accepted-malformed", sim::fmt("a malformed file (%s) was read without an error", w.damage.c_str()));
    if (w.verdict == Verdict::VALID) {
      check_same(w.expected, assemble(w.views, "graph"), {}, "graph");
    }
  });
}

void dist_finish(void *) {}
}
