// C21: unit-weight partitions of the distributed partitioner are balanced, and the balancers repair imbalanced ones.
#include "dist_refine.h"

using namespace dist_refine;

namespace {
struct Both {
  bool whole = false;
  dist_e2e::W *e = nullptr;
  W *r = nullptr;
};
i64 limit(const dist_e2e::Plan &plan, std::size_t n, unsigned k) {
  const double eps = plan.get(dist_e2e::T_EPS, -1) < 0 ? 0.03 : 0.001 * plan.get(dist_e2e::T_EPS, -1);
  return static_cast<i64>((1.0 + eps) * static_cast<double>((n + k - 1) / k));
}
// The fallback to single nodes and one move at a time is part of what makes the promise.
void with_fallback(dist_e2e::Plan &plan) {
  for (auto &[t, v] : plan.tweaks) {
    if (t == dist_e2e::T_CB_STALL) v |= 3;
  }
}
} // namespace

extern "C" {
sim::dist::Config dist_config = {400'000'000, "hang"};
void *dist_prepare() {
  auto *both = new Both();
  both->whole = sim::coin(0.6);
  if (both->whole) {
    sim::note("partitioner ");
    both->e = dist_e2e::draw(6, 3, sim::coin(0.2) ? 120 : 40, 0.0);
    // The random initial partitioner makes no promise, and the coarsest level is refined on demand only.
    std::erase_if(both->e->plan.tweaks, [](auto &t) { return t.first == dist_e2e::T_IP; });
    with_fallback(both->e->plan);
    return both;
  }
  auto *w = both->r = new W();
  common_draw(*w, 0.0, sim::coin(0.2) ? 120 : 40);
  with_fallback(w->plan);
  w->algo = sim::coin() ? A_NB : sim::coin() ? A_CB : A_JET;
  sim::note(text(*w));
  if (w->P() > 1 && w->g.n > 4 && w->g.m() > 0 && w->k > 1) {
    sim::mark_nontrivial();
  }
  return both;
}
int dist_ranks(void *w) {
  auto *b = static_cast<Both *>(w);
  return b->whole ? b->e->b.n : b->r->b.n;
}
void dist_rank(int r, void *wp) {
  Both &b = *static_cast<Both *>(wp);
  if (b.whole) {
    dist_e2e::run_rank(*b.e, r);
    return;
  }
  W &w = *b.r;
  run(w, r, [&](const std::vector<unsigned> &part) {
    const i64 lim = limit(w.plan, w.g.n, w.k);
    const auto bw = w.g.block_weights(part, w.k);
    for (unsigned x = 0; x < w.k; ++x) {
      if (bw[x] > lim) {
        sim::fail("not-repaired", sim::fmt("%s leaves block %u with weight %ld, limit %ld", kAlgoNames[w.algo], x, (long)bw[x], (long)lim));
      }
    }
  });
}
void dist_finish(void *wp) {
  Both &b = *static_cast<Both *>(wp);
  if (!b.whole) {
    return;
  }
  dist_e2e::check_result(*b.e);
  const i64 lim = limit(b.e->plan, b.e->g.n, b.e->k);
  const auto bw = b.e->g.block_weights(b.e->part, b.e->k);
  for (unsigned x = 0; x < b.e->k; ++x) {
    SIM_CHECK(bw[x] <= lim, "imbalanced", sim::fmt("block %u has weight %ld, limit %ld (n = %zu, k = %u)", x, (long)bw[x], (long)lim, b.e->g.n, b.e->k));
  }
}
}
