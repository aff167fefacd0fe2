// C22: runs of the distributed partitioner terminate on every process for every message timing and process speed.
// Many processes with little work each, so that the order of events varies as much as possible. The runtime reports
// deadlocks, mismatched collectives, messages that are never received, misuse of requests and runs without end.
#include "dist_e2e.h"

using namespace dist_e2e;

extern "C" {
sim::dist::Config dist_config = {400'000'000, "hang"};
void *dist_prepare() {
  W *w = draw(12, 2, sim::coin(0.3) ? 60 : 20, 0.3);
  w->repeat = static_cast<int>(sim::coin(0.3) ? 2 : 1);
  return w;
}
int dist_ranks(void *w) { return static_cast<W *>(w)->b.n; }
void dist_rank(int r, void *w) { run_rank(*static_cast<W *>(w), r); }
void dist_finish(void *w) { check_result(*static_cast<W *>(w)); }
}
