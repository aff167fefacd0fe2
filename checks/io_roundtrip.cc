// C17: graphs and partitions survive a write-read round trip.
#include "io_common.h"

namespace {
using namespace fio;

void transient_faults() {
  sim::fs::Faults f;
  if (sim::coin()) {
    f.read_short = f.write_short = sim::coin() ? 0.4 : 0.1;
    f.read_eintr = f.write_eintr = sim::coin() ? 0.3 : 0.05;
  }
  sim::fs::faults = f;
}

void partitions() {
  const std::string path = "/sim/part";
  const std::size_t n = sim::coin(0.2) ? sim::range(3000, 7000) : sim::range(0, 80);
  const BlockID k = static_cast<BlockID>(sim::coin(0.3) ? sim::range(1, 2000) : sim::range(1, 9));
  std::vector<BlockID> part(n);
  {
    sim::NoPreempt np;
    const std::size_t mul = sim::range(1, 1000);
    for (std::size_t i = 0; i < n; ++i) part[i] = static_cast<BlockID>((i * mul + i / 3) % k);
    sim::case_key(n * 7919 + k * 31 + mul);
  }
  const bool sizes = sim::coin();
  sim::note(sim::fmt("%s n=%zu k=%u", sizes ? "block sizes" : "partition", n, k));
  sim::mark_nontrivial();
  transient_faults();
  if (sizes) {
    sio::partition::write_block_sizes(path, k, part);
    const auto back = sio::partition::read_block_sizes(path);
    std::vector<BlockID> sorted = part;
    std::sort(sorted.begin(), sorted.end());
    SIM_CHECK(back.size() == n && std::equal(sorted.begin(), sorted.end(), back.begin()), "wrong-partition", "the block sizes came back changed");
  } else {
    sio::partition::write(path, part);
    const auto back = sio::partition::read(path);
    SIM_CHECK(back.size() == n && std::equal(part.begin(), part.end(), back.begin()), "wrong-partition",
              sim::fmt("a partition of %zu nodes came back as one of %zu nodes or with other blocks", n, static_cast<std::size_t>(back.size())));
  }
}

void remapping() {
  const std::string path = "/sim/map";
  const std::size_t n = sim::range(0, 60);
  std::vector<NodeID> map(n);
  for (std::size_t i = 0; i < n; ++i) map[i] = static_cast<NodeID>((i * 7 + 3) % std::max<std::size_t>(n, 1));
  sim::note(sim::fmt("remapping n=%zu", n));
  sim::mark_nontrivial();
  transient_faults();
  sio::remapping::write(path, map);
  const auto back = sio::partition::read(path); // same layout: one number per line
  SIM_CHECK(back.size() == n && std::equal(map.begin(), map.end(), back.begin()), "wrong-remapping", "the remapping came back changed");
}

void run() {
  const int P = static_cast<int>(sim::range(1, 6));
  sim::tbb_configure(P);
  sim::fs::reset();
  const int kind = static_cast<int>(sim::range(0, 9));
  if (kind == 0) return partitions();
  if (kind == 1 && sim::coin(0.5)) return remapping();
  const std::string path = "/sim/graph";
  G g = file_graph(sim::coin(0.15) ? 1200 : 80);
  const bool sorted = sim::coin(0.25);
  if (sorted) {
    // degree-bucket order with isolated nodes last, as the readers and the partitioner define it
    sim::NoPreempt np;
    G s = degree_sorted(g);
    std::size_t iso = 0;
    while (iso < s.n && s.deg(iso) == 0) ++iso;
    G r = s;
    std::rotate(r.vw.begin(), r.vw.begin() + iso, r.vw.end());
    r.xadj.assign(1, 0);
    for (std::size_t u = iso; u < s.n; ++u) r.xadj.push_back(s.xadj[u + 1]);
    for (std::size_t u = 0; u < iso; ++u) r.xadj.push_back(s.m());
    for (auto &v : r.adj) v -= iso;
    g = r;
  }
  const int format = static_cast<int>(sim::range(0, 2));
  NodeOrdering order = sorted ? NodeOrdering::IMPLICIT_DEGREE_BUCKETS : NodeOrdering::NATURAL;
  if (format == 1 && sim::coin()) order = NodeOrdering::EXTERNAL_DEGREE_BUCKETS;
  const bool compressed_source = format == 2 || (format == 0 && sim::coin(0.3));
  const bool compress = format == 2 || sim::coin();
  sim::note(sim::fmt("format=%d order=%d P=%d compress=%d; %s", format, static_cast<int>(order), P, compress, g.describe().c_str()));
  if (P > 1 && g.m() > 0) sim::mark_nontrivial();
  {
    const Graph graph = compressed_source ? compressed_of(g, sorted) : graph_of(g, sorted);
    transient_faults();
    switch (format) {
    case 0: sio::metis::write(path, graph); break;
    case 1: sio::parhip::write(path, graph.concretize<CSRGraph>()); break;
    default: sio::compressed_binary::write(path, graph.concretize<CompressedGraph>()); break;
    }
  }
  transient_faults();
  if (format == 1 && compress && order == NodeOrdering::NATURAL && sim::coin(0.4)) {
    const CompressedGraph c = sio::parhip::compressed_read(path, false); // sequential reader
    sim::fs::faults = {};
    return check_ordered(c, g, order, "wrong-graph");
  }
  const Graph back = sio::read(path, format == 0 ? sio::GraphFileFormat::METIS : sio::GraphFileFormat::PARHIP, order, compress);
  sim::fs::faults = {};
  SIM_CHECK(sim::fs::open_files() == 0, "leaked-file", "the reader left the file open");
  check_ordered(back, g, order, "wrong-graph");
  if (sorted && order != NodeOrdering::EXTERNAL_DEGREE_BUCKETS) {
    SIM_CHECK(back.sorted(), "lost-order", "a graph in degree-bucket order came back unsorted");
  }
}
} // namespace

sim::Check sim::the_check = {"io_roundtrip", run, 60'000'000, "hang"};
