// C20: the distributed partitioner returns a valid partition and its exact cut on every process.
#include "dist_e2e.h"

using namespace dist_e2e;

extern "C" {
sim::dist::Config dist_config = {400'000'000, "hang"};
void *dist_prepare() { return draw(6, 3, sim::coin(0.2) ? 120 : 40, 0.4, true); }
int dist_ranks(void *w) { return static_cast<W *>(w)->b.n; }
void dist_rank(int r, void *w) { run_rank(*static_cast<W *>(w), r); }
void dist_finish(void *w) { check_result(*static_cast<W *>(w)); }
}
