// C02: partitions respect the balance constraint.
#include "shm_e2e.h"

namespace {
using namespace e2e;

void run() {
  Workload w = random_workload();
  sim::tbb_configure(w.P);
  // these presets deliberately run without a balancer
  if (w.preset == "noref" || w.preset == "restricted-vcycle") return sim::discard("no balancer configured");
  if (w.ctx.partitioning.mode == PartitioningMode::RB) w.ctx.partitioning.rb_enable_kway_toplevel_refinement = true;
  gen::Opts o;
  o.max_n = sim::coin(0.3) ? 150 : 50;
  o.max_m = 3 * o.max_n;
  o.allow_empty = false;
  const bool unit = sim::coin(0.6);
  o.p_vw = unit ? 0 : 1;
  const G g = gen::random_graph(o);
  BlockID k = static_cast<BlockID>(sim::range(1, 8));
  if (sim::coin(0.1)) k = static_cast<BlockID>(sim::range(1, g.n + 3));
  k = supported_k(w, k);
  const i64 W = g.total_vw();
  double eps = 0.001 * static_cast<double>(sim::range(0, 100));
  if (!unit) eps = 0.01 * static_cast<double>(sim::range(0, 150));
  const int how = static_cast<int>(sim::range(0, 3));
  std::vector<i64> limit(k);
  std::vector<BlockWeight> explicit_limits;
  std::vector<double> factors;
  if (how <= 1) {
    if (how == 1) eps = 0.03;
    const i64 perfect = (W + k - 1) / k;
    for (auto &l : limit) l = static_cast<BlockWeight>((1.0 + eps) * perfect);
    if (!unit && limit[0] - perfect <= g.max_vw()) return sim::discard("no slack for the heaviest node");
  } else {
    // random shares of (1 + eps) * W
    std::vector<i64> share(k);
    i64 sum = 0;
    for (auto &s : share) sum += (s = static_cast<i64>(sim::range(1, 6)));
    const i64 total = static_cast<i64>((1.0 + eps) * W) + k;
    for (BlockID b = 0; b < k; ++b) limit[b] = std::max<i64>(1, (total * share[b] + sum - 1) / sum);
    if (how == 3) {
      for (auto &l : limit) {
        const double f = static_cast<double>(l) / static_cast<double>(W);
        factors.push_back(f);
        l = static_cast<i64>(std::ceil(f * static_cast<double>(W)));
      }
    }
    i64 lsum = 0;
    for (auto l : limit) {
      explicit_limits.push_back(static_cast<BlockWeight>(l));
      lsum += l;
    }
    if (!unit) {
      for (auto l : limit) {
        const i64 perfect = (l * W + lsum - 1) / lsum;
        if (l - perfect - 1 <= g.max_vw()) return sim::discard("no slack for the heaviest node");
      }
    }
  }
  sim::note(sim::fmt("%s%s P=%d t=%d k=%u eps=%.3f how=%d C=%u; %s", w.preset.c_str(), w.tweaks.c_str(), w.P,
                     w.threads, k, eps, how, w.ctx.coarsening.contraction_limit, g.describe().c_str()));
  sim::faults.clock_jumps = sim::coin(0.2);
  reseed(static_cast<int>(sim::range(0, 1000)));
  Arrays a(g);
  KaMinPar kmp(w.threads, w.ctx);
  kmp.set_output_level(OutputLevel::QUIET);
  load(kmp, g, w.compressed, a);
  std::vector<BlockID> part(g.n, kInvalidBlockID);
  EdgeWeight cut = 0;
  switch (how) {
  case 0: cut = kmp.compute_partition(k, eps, part); break;
  case 1: cut = kmp.compute_partition(k, part); break;
  case 2: cut = kmp.compute_partition(explicit_limits, part); break;
  default: cut = kmp.compute_partition(factors, part); break;
  }
  check_partition(g, part, k, cut);
  const auto bw = g.block_weights(part, k);
  for (BlockID b = 0; b < k; ++b)
    SIM_CHECK(bw[b] <= limit[b], "overloaded-block",
              sim::fmt("block %u of %u has weight %ld, its maximum is %ld (total %ld, heaviest node %ld)", b, k,
                       (long)bw[b], (long)limit[b], (long)W, (long)g.max_vw()));
  if (g.n > 4 && g.m() > 0 && k > 1 && w.P > 1) sim::mark_nontrivial();
}
} // namespace

sim::Check sim::the_check = {"shm_balance", run, 400'000'000, "hang"};
