// C15: reading a graph file yields exactly the graph in the file, or a reported failure.
#include "io_common.h"

namespace {
using namespace fio;

enum Format { METIS, PARHIP, COMPRESSED };

void run() {
  const int P = static_cast<int>(sim::range(1, 5));
  sim::tbb_configure(P);
  sim::fs::reset();
  const std::string path = "/sim/graph";
  const auto format = static_cast<Format>(sim::range(0, 2));
  G g = file_graph();
  NodeOrdering order = NodeOrdering::NATURAL;
  if (format == PARHIP) {
    order = sim::coin() ? NodeOrdering::EXTERNAL_DEGREE_BUCKETS : NodeOrdering::NATURAL;
  }
  // the file
  std::string content;
  bool wide = false;
  if (format == METIS) {
    content = encode_metis(g, random_style());
  } else if (format == PARHIP) {
    Widths wd;
    if (sim::coin(0.06)) {
      wide = true;
      switch (sim::range(0, 3)) {
      case 0: wd.node = 8; break;
      case 1: wd.edge = 8; break;
      case 2: wd.vw = 8; g.has_vw = true; break;
      default: wd.ew = 8; g.has_ew = true; break;
      }
    }
    content = encode_parhip(g, wd);
  } else {
    const Graph c = compressed_of(g);
    sio::compressed_binary::write(path, c.concretize<CompressedGraph>());
    content = sim::fs::get(path);
  }
  // damage
  const std::size_t full = content.size();
  bool missing = false, foreign = false;
  const char *damage = "none";
  {
    sim::NoPreempt np;
    const int d = static_cast<int>(sim::range(0, 9));
    if (d >= 4 && d <= 7 && full > 0) {
      std::size_t to = sim::range(0, full - 1);
      if (sim::coin(0.3)) to = full - 1 - std::min<std::size_t>(full - 1, sim::range(0, 3)); // near the end
      if (sim::coin(0.15)) to = std::min(full - 1, static_cast<std::size_t>(sim::range(0, 40)));     // the header
      content.resize(to);
      damage = "truncated";
    } else if (d == 8 && format == METIS && full > 0) {
      damage = "edited";
      const int edits = static_cast<int>(sim::range(1, 2));
      for (int i = 0; i < edits && !content.empty(); ++i) {
        const std::size_t at = sim::range(0, content.size() - 1);
        static const std::string repl = "0123456789 \n%-a";
        switch (sim::range(0, 3)) {
        case 0: content.erase(at, 1); break;
        case 1: content.insert(at, 1, repl[sim::range(0, repl.size() - 1)]); break;
        case 2: { // drop a line
          const std::size_t from = content.rfind('\n', at), to = content.find('\n', at);
          if (from != std::string::npos && to != std::string::npos && to > from) content.erase(from, to - from);
          break;
        }
        default: content[at] = repl[sim::range(0, repl.size() - 1)]; break;
        }
      }
    } else if (d == 8 && format == COMPRESSED && full >= 34) {
      damage = "written by another build";
      foreign = true;
      if (sim::coin()) { // widths and encodings
        static const int bits[] = {2, 3, 4, 5, 7, 8, 9};
        const int bit = bits[sim::range(0, 6)];
        content[8 + bit / 8] ^= static_cast<char>(1 << bit % 8);
      } else { // thresholds and lengths of the encoding
        const std::size_t at = 10 + 8 * sim::range(0, 2);
        std::uint64_t x;
        std::memcpy(&x, content.data() + at, 8);
        x = sim::coin() ? x + 1 : sim::coin() ? x - 1 : x ^ (std::uint64_t{1} << sim::range(0, 63));
        std::memcpy(content.data() + at, &x, 8);
      }
    } else if (d == 9 && sim::coin(0.3)) {
      missing = true;
      damage = "missing";
    }
  }
  if (missing)
    sim::fs::remove(path);
  else
    sim::fs::put(path, content);
  // what the file says
  G expected = g;
  Verdict verdict = Verdict::VALID;
  if (missing || wide || foreign) {
    verdict = Verdict::MALFORMED;
  } else if (format == METIS) {
    verdict = parse_metis(content, expected);
  } else if (content.size() < full) {
    verdict = Verdict::MALFORMED;
  }
  // faults
  sim::fs::Faults f;
  if (sim::coin(0.4)) {
    f.read_short = sim::coin() ? 0.4 : 0;
    f.read_eintr = sim::coin() ? 0.3 : 0;
  }
  if (sim::coin(0.3)) {
    switch (sim::range(0, 4)) {
    case 0: f.open_fail = 0.6; break;
    case 1: f.read_eio = 0.2; break;
    case 2: f.mmap_fail = 0.6; break;
    case 3: f.fstat_fail = 0.6; break;
    default: f.open_fail = f.read_eio = f.mmap_fail = f.fstat_fail = 0.15; break;
    }
  }
  sim::fs::fired = {};
  sim::fs::faults = f;
  const int via = static_cast<int>(sim::range(0, 3)); // which entry point
  sim::note(sim::fmt("format=%d via=%d order=%d P=%d %s %zu of %zu bytes; %s", format, via, static_cast<int>(order), P, damage, content.size(), full,
                     g.describe().c_str()));
  if (damage[0] != 'n' || f.read_short + f.read_eintr + f.open_fail + f.read_eio + f.mmap_fail + f.fstat_fail > 0) sim::mark_nontrivial();
  sim::count(verdict == Verdict::VALID ? "file:valid" : verdict == Verdict::MALFORMED ? "file:malformed" : "file:unspecified");

  const auto reported = [&](const std::string &why) {
    sim::count("outcome:reported");
    SIM_CHECK(verdict != Verdict::VALID || sim::fs::fired.hard() > 0, "rejected-valid",
              sim::fmt("a well-formed file was rejected without an I/O error: %s", why.c_str()));
  };
  // the result outlives the reader: the mapping is gone, faults are off
  std::unique_ptr<Graph> graph;
  std::unique_ptr<CSRGraph> csr;
  std::unique_ptr<CompressedGraph> compressed;
  const bool ok = attempt("read", reported, [&] {
    const auto gff = format == METIS ? sio::GraphFileFormat::METIS : sio::GraphFileFormat::PARHIP;
    if (via == 0 || (format == COMPRESSED && via == 1)) {
      const bool compress = format == COMPRESSED || sim::coin();
      graph = std::make_unique<Graph>(sio::read(path, gff, order, compress));
    } else if (format == COMPRESSED) {
      compressed = std::make_unique<CompressedGraph>(sio::compressed_binary::read(path));
    } else if (format == METIS) {
      if (via == 1)
        csr = std::make_unique<CSRGraph>(sio::metis::csr_read(path, false));
      else
        compressed = std::make_unique<CompressedGraph>(sio::metis::compress_read(path, false));
    } else {
      if (via == 1)
        csr = std::make_unique<CSRGraph>(sio::parhip::csr_read(path, order));
      else if (via == 2)
        compressed = std::make_unique<CompressedGraph>(sio::parhip::compressed_read_parallel(path, order));
      else
        order = NodeOrdering::NATURAL, compressed = std::make_unique<CompressedGraph>(sio::parhip::compressed_read(path, false));
    }
  });
  sim::fs::faults = {};
  if (!ok) return;
  sim::count("outcome:returned");
  SIM_CHECK(verdict != Verdict::MALFORMED, "accepted-malformed",
            sim::fmt("a malformed file (%s, %zu of %zu bytes) was read without an error", damage, content.size(), full));
  if (verdict == Verdict::UNSPECIFIED) return;
  if (graph)
    check_ordered(*graph, expected, order, "wrong-graph");
  else if (csr)
    check_ordered(*csr, expected, order, "wrong-graph");
  else
    check_ordered(*compressed, expected, order, "wrong-graph");
}
} // namespace

sim::Check sim::the_check = {"io_read", run, 60'000'000, "hang"};
