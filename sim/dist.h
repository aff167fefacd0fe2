// Interface between the driver of the distributed checks and a check (a shared object).
#pragma once
#include <cstdint>

namespace sim::dist {
constexpr int kMaxRanks = 12;
struct Config {
  std::uint64_t max_steps;
  const char *hang_class;
};
} // namespace sim::dist

// extern "C" symbols of a check:
//   Config dist_config
//   void *dist_prepare()             rank 0: draws the workload (plain data, shared by all ranks)
//   int dist_ranks(void *workload)   number of processes
//   void dist_rank(int r, void *w)   the program of one rank
//   void dist_finish(void *w)        oracle over what the ranks recorded
