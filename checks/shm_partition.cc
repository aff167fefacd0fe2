// C01: the shared-memory partitioner returns a valid partition and its exact cut.
#include "shm_e2e.h"

namespace {
using namespace e2e;

void run() {
  Workload w = random_workload();
  gen::Opts o;
  o.max_n = sim::coin(0.3) ? 150 : 50;
  o.max_m = 3 * o.max_n;
  const G g = gen::random_graph(o);
  BlockID k = static_cast<BlockID>(sim::range(1, 8));
  if (sim::coin(0.1)) k = static_cast<BlockID>(sim::range(1, g.n + 3));
  k = supported_k(w, k);
  double eps = 0.03;
  if (sim::coin(0.3)) eps = 0.001 * static_cast<double>(sim::range(1, 500));
  sim::tbb_configure(w.P);
  bool odd_steps = false;
  sim::faults.clock_jumps = sim::coin(0.2);
  if (w.preset == "vcycle" || w.preset == "restricted-vcycle") {
    // A non-decreasing sequence of intermediate block counts, usually powers of two.
    const bool odd = sim::coin(0.05);
    auto &steps = w.ctx.partitioning.vcycles;
    for (std::uint64_t i = sim::range(0, 3); i > 0 && k >= 2; --i) {
      BlockID s = static_cast<BlockID>(sim::range(2, k));
      while (!odd && s != k && (s & (s - 1)) != 0) --s;
      if (s != k && (s & (s - 1)) != 0) odd_steps = true;
      steps.push_back(s);
    }
    std::sort(steps.begin(), steps.end());
  }
  sim::note(sim::fmt("%s%s%s P=%d t=%d k=%u eps=%.3f C=%u; %s", w.preset.c_str(), w.tweaks.c_str(), odd_steps ? " vcycle-steps-not-powers-of-two" : "", w.P, w.threads, k,
                     eps, w.ctx.coarsening.contraction_limit, g.describe().c_str()));
  reseed(static_cast<int>(sim::range(0, 1000)));
  Arrays a(g);
  KaMinPar kmp(w.threads, w.ctx);
  kmp.set_output_level(OutputLevel::QUIET);
  load(kmp, g, w.compressed, a);
  std::vector<BlockID> part(g.n, kInvalidBlockID);
  const EdgeWeight cut = sim::coin() ? kmp.compute_partition(k, eps, part) : (eps = 0.03, kmp.compute_partition(k, part));
  check_partition(g, part, k, cut);
  if (g.n > 4 && g.m() > 0 && k > 1 && w.P > 1) sim::mark_nontrivial();
}
} // namespace

sim::Check sim::the_check = {"shm_partition", run, 400'000'000, "hang"};
