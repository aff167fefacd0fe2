// C13: with one thread, the result is a function of graph, configuration and seed.
#include "shm_e2e.h"

#include "kaminpar-common/timer.h"

namespace {
using namespace e2e;

std::vector<BlockID> once(KaMinPar &kmp, const G &g, bool compressed, bool reload, Arrays &a, BlockID k, double eps,
                          const std::vector<BlockWeight> &limits, int seed, i64 &cut) {
  if (reload) load(kmp, g, compressed, a);
  std::vector<BlockID> part(g.n, kInvalidBlockID);
  reseed(seed);
  cut = limits.empty() ? kmp.compute_partition(k, eps, part) : kmp.compute_partition(limits, part);
  check_partition(g, part, k, cut);
  return part;
}

void run() {
  Workload w = random_workload(true, false);
  w.threads = 1;
  sim::tbb_configure(w.P);
  gen::Opts o;
  o.max_n = sim::coin(0.3) ? 120 : 40;
  o.max_m = 3 * o.max_n;
  const G g = gen::random_graph(o);
  const BlockID k = supported_k(w, static_cast<BlockID>(sim::range(2, 8)));
  const double eps = 0.01 * static_cast<double>(sim::range(1, 30));
  const int seed = static_cast<int>(sim::range(0, 1000));
  std::vector<BlockWeight> limits;
  if (sim::coin(0.3)) {
    for (BlockID b = 0; b < k; ++b)
      limits.push_back(static_cast<BlockWeight>((g.total_vw() + k - 1) / k * (1.0 + 0.1 * b) + g.max_vw() + 1));
  }
  const int history = static_cast<int>(sim::range(0, 3));
  sim::note(sim::fmt("%s%s P=%d k=%u eps=%.3f%s C=%u history=%d; %s", w.preset.c_str(), w.tweaks.c_str(), w.P, k, eps,
                     limits.empty() ? "" : " limits", w.ctx.coarsening.contraction_limit, history, g.describe().c_str()));
  Arrays a(g);
  i64 cut1 = 0, cut2 = 0;
  std::vector<BlockID> p1, p2;
  auto kmp1 = std::make_unique<KaMinPar>(1, w.ctx);
  kmp1->set_output_level(OutputLevel::QUIET);
  p1 = once(*kmp1, g, w.compressed, true, a, k, eps, limits, seed, cut1);
  // history between the two computations
  sim::advance_ns(sim::range(0, 1) * 1'000'000'000'000ull);
  sim::faults.clock_jumps = sim::coin(0.3);
  sim::heap_fill(static_cast<std::uint8_t>(sim::range(0, 255)));
  std::vector<std::unique_ptr<char[]>> junk;
  for (auto i = sim::range(0, 20); i > 0; --i) junk.push_back(std::make_unique<char[]>(sim::range(1, 5000)));
  if (sim::coin(0.3)) {
    DISABLE_TIMERS();
  }
  const bool same_object = history == 1 || history == 2;
  if (history >= 2) { // something else in between, perhaps on the same object
    gen::Opts o2 = o;
    const G g2 = gen::random_graph(o2);
    Arrays a2(g2);
    std::unique_ptr<KaMinPar> tmp;
    KaMinPar *kmp = kmp1.get();
    if (history == 3) {
      tmp = std::make_unique<KaMinPar>(static_cast<int>(sim::range(1, w.P)), w.ctx);
      tmp->set_output_level(OutputLevel::QUIET);
      kmp = tmp.get();
    }
    load(*kmp, g2, w.compressed, a2);
    std::vector<BlockID> part(g2.n, kInvalidBlockID);
    reseed(seed + 1);
    const BlockID k2 = supported_k(w, static_cast<BlockID>(sim::range(2, 8)));
    check_partition(g2, part = [&] { kmp->compute_partition(k2, 0.07, part); return part; }(), k2, g2.cut(part));
  }
  if (!same_object) {
    kmp1 = std::make_unique<KaMinPar>(1, w.ctx);
    kmp1->set_output_level(OutputLevel::QUIET);
  }
  p2 = once(*kmp1, g, w.compressed, !same_object || history == 2 || sim::coin(), a, k, eps, limits, seed, cut2);
  SIM_CHECK(p1 == p2, "not-a-function-of-the-seed",
            sim::fmt("two computations with one thread, the same input, configuration and seed differ (cuts %ld and %ld)",
                     (long)cut1, (long)cut2));
  if (g.n > 4 && g.m() > 0) sim::mark_nontrivial();
}
} // namespace

sim::Check sim::the_check = {"shm_determinism", run, 800'000'000, "hang"};
