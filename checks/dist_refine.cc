// C27: distributed refiners and balancers keep partitions, ghost nodes and block weights consistent.
#include "dist_refine.h"

#include "kaminpar-dist/refinement/snapshooter.h"

using namespace dist_refine;
namespace de = dist_e2e;

namespace {
// Algorithms that may not overload blocks of a feasible partition (their last step checks or repairs the balance).
bool keeps_feasible(const W &w) {
  const auto strat = static_cast<LabelPropagationMoveExecutionStrategy>(
      w.plan.get(de::T_CLP_STRAT, static_cast<int>(LabelPropagationMoveExecutionStrategy::BEST_MOVES)));
  switch (w.algo) {
  case A_LP:
    return (w.plan.get(de::T_LP_PROB, 1) & 1) == 0;
  case A_CLP:
    return strat == LabelPropagationMoveExecutionStrategy::PROBABILISTIC ||
           (strat == LabelPropagationMoveExecutionStrategy::BEST_MOVES);
  case A_JET:
  case A_NB:
  case A_CB:
    return true;
  default:
    return false;
  }
}
bool rolls_back(const W &w) { return w.algo == A_JET || w.algo == A_NB || w.algo == A_CB; }
} // namespace

extern "C" {
sim::dist::Config dist_config = {200'000'000, "hang"};
void *dist_prepare() {
  auto *w = new W();
  common_draw(*w, 0.4, sim::coin(0.2) ? 120 : 40);
  w->algo = static_cast<Algo>(sim::choose(sim::K_WORK, A_COUNT));
  sim::note(text(*w));
  if (w->P() > 1 && w->g.n > 4 && w->g.m() > 0 && w->k > 1) {
    sim::mark_nontrivial();
  }
  return w;
}
int dist_ranks(void *w) { return static_cast<W *>(w)->b.n; }
void dist_rank(int r, void *wp) {
  W &w = *static_cast<W *>(wp);
  run(w, r, [&](const std::vector<unsigned> &part) {
    if (overload(w, w.last) > 0) return;
    const i64 over = overload(w, part);
    if (keeps_feasible(w) && over > 0) {
      sim::fail("feasible-to-infeasible", sim::fmt("round %d overloads blocks by %ld", w.judged, (long)over));
    }
    if (rolls_back(w) && w.g.cut(part) > w.g.cut(w.last)) {
      sim::fail("worse-cut", sim::fmt("round %d increases the cut from %ld to %ld", w.judged, (long)w.g.cut(w.last), (long)w.g.cut(part)));
    }
  });
}
void dist_finish(void *) {}
}
