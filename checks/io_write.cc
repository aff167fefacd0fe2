// C16: a write that reports success has written the whole file.
#include "io_common.h"

#include <numeric>

namespace {
using namespace fio;

enum What { PARTITION, BLOCK_SIZES, REMAPPING, METIS, PARHIP, COMPRESSED };
const char *kNames[] = {"partition::write", "partition::write_block_sizes", "remapping::write", "metis::write", "parhip::write", "compressed_binary::write"};

void run() {
  const int P = static_cast<int>(sim::range(1, 4));
  sim::tbb_configure(P);
  sim::fs::reset();
  const std::string path = "/sim/out";
  const auto what = static_cast<What>(sim::range(0, 5));
  // The content, usually larger than the buffer of a stream every now and then
  G g;
  std::vector<std::uint32_t> ids;
  BlockID k = 1;
  std::unique_ptr<Graph> graph;
  if (what <= REMAPPING) {
    sim::NoPreempt np;
    const std::size_t n = sim::coin(0.25) ? sim::range(4000, 9000) : sim::coin(0.1) ? 0 : sim::range(1, 60);
    ids.resize(n);
    if (what == REMAPPING) {
      std::iota(ids.begin(), ids.end(), 0);
      const std::size_t swaps = sim::range(0, 30);
      for (std::size_t i = 0; i < swaps && n > 1; ++i) std::swap(ids[sim::range(0, n - 1)], ids[sim::range(0, n - 1)]);
    } else {
      k = static_cast<BlockID>(sim::coin(0.2) ? sim::range(1, 3000) : sim::range(1, 9));
      const std::size_t mul = sim::range(1, 1000);
      for (std::size_t i = 0; i < n; ++i) ids[i] = static_cast<std::uint32_t>((i * mul + i / 7) % k);
      sim::case_key(mul * 31 + n * 7919 + k);
    }
  } else {
    g = file_graph(sim::coin(0.3) ? 900 : 60);
    graph = std::make_unique<Graph>(what == COMPRESSED || (what == METIS && sim::coin(0.3)) ? compressed_of(g) : graph_of(g));
  }
  const auto write = [&] {
    switch (what) {
    case PARTITION: sio::partition::write(path, ids); break;
    case BLOCK_SIZES: sio::partition::write_block_sizes(path, k, ids); break;
    case REMAPPING: sio::remapping::write(path, ids); break;
    case METIS: sio::metis::write(path, *graph); break;
    case PARHIP: sio::parhip::write(path, graph->concretize<CSRGraph>()); break;
    default: sio::compressed_binary::write(path, graph->concretize<CompressedGraph>()); break;
    }
  };
  write();
  const std::string full = sim::fs::get(path);
  // without faults the file is complete
  {
    sim::NoPreempt np;
    switch (what) {
    case PARTITION:
    case REMAPPING: {
      const auto r = numbers(full);
      SIM_CHECK(r && std::equal(r->begin(), r->end(), ids.begin(), ids.end()), "wrong-content", sim::fmt("%s: the file does not list the values", kNames[what]));
      break;
    }
    case BLOCK_SIZES: {
      std::vector<std::uint64_t> sizes(k, 0);
      for (auto b : ids) ++sizes[b];
      const auto r = numbers(full);
      SIM_CHECK(r && *r == sizes, "wrong-content", "the file does not list the block sizes");
      break;
    }
    case METIS: {
      G h;
      SIM_CHECK(parse_metis(full, h) == Verdict::VALID, "wrong-content", "the METIS file is malformed");
      check_content(h, g, "METIS");
      break;
    }
    case PARHIP: {
      G h;
      SIM_CHECK(decode_parhip(full, h), "wrong-content", "the ParHIP file is malformed");
      check_content(h, g, "ParHIP");
      break;
    }
    default: break;
    }
  }
  // the same with faults
  const int before = static_cast<int>(sim::range(0, 2));
  if (before == 0) sim::fs::remove(path);
  if (before == 1) sim::fs::put(path, full + "leftover of a longer file\n");
  sim::fs::Faults f;
  if (sim::coin(0.5)) {
    f.write_short = sim::coin() ? 0.5 : 0.1;
    f.write_eintr = sim::coin() ? 0.3 : 0;
  }
  if (sim::coin(0.7)) {
    switch (sim::range(0, 4)) {
    case 0: f.open_fail = 0.7; break;
    case 1: f.write_eio = sim::coin() ? 0.5 : 0.1; break;
    case 2: f.close_fail = 0.7; break;
    case 3: f.disk_capacity = full.empty() ? 0 : static_cast<std::int64_t>(sim::range(0, full.size() + 3)); break;
    default: f.open_fail = f.write_eio = f.close_fail = 0.1; break;
    }
  }
  sim::fs::reset();
  sim::fs::faults = f;
  sim::note(sim::fmt("%s, %zu bytes, P=%d", kNames[what], full.size(), P));
  if (f.write_short + f.write_eintr + f.open_fail + f.write_eio + f.close_fail > 0 || f.disk_capacity >= 0) sim::mark_nontrivial();
  const auto reported = [&](const std::string &why) {
    sim::count("outcome:reported");
    SIM_CHECK(sim::fs::fired.hard() > 0, "spurious-failure", sim::fmt("%s failed without an I/O error: %s", kNames[what], why.c_str()));
  };
  const bool ok = attempt(kNames[what], reported, write);
  sim::fs::faults = {};
  if (!ok) return;
  sim::count("outcome:returned");
  sim::NoPreempt np;
  const std::string now = sim::fs::get(path);
  SIM_CHECK(now == full, "lost-write",
            sim::fmt("%s returned normally, but the file has %zu of %zu bytes%s", kNames[what], now.size(), full.size(),
                     sim::fs::fired.hard() > 0 ? " (an I/O error was hit)" : ""));
  SIM_CHECK(sim::fs::open_files() == 0, "unflushed", sim::fmt("%s returned normally, but the file is still open", kNames[what]));
}
} // namespace

sim::Check sim::the_check = {"io_write", run, 60'000'000, "hang"};
