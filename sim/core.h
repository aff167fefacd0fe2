// Simulator internals shared by the runtime files.
#pragma once
#include "sim.h"
#include <cstring>

namespace sim {

struct Entry {
  std::uint64_t ordinal;
  std::uint64_t value;
  std::uint64_t kind;
};

constexpr int kMaxCounters = 96;
constexpr std::size_t kMaxEntries = 1u << 20;

enum Status : int { ST_RUNNING = 0, ST_OK, ST_FAIL, ST_DISCARD, ST_STEPS, ST_ERROR };

// Lives in memory shared with the driver, so it survives a crash of the run.
struct Result {
  int status;
  int nontrivial;
  char cls[160];
  char msg[4096];
  char note[2048];
  std::uint64_t hash;       // event log hash: every choice + everything logged
  std::uint64_t sched_hash; // hash of the sequence of context switches (fiber, code site)
  std::uint64_t steps, switches, preemptions, now_ns, case_key;
  int n_counters;
  char counter_name[kMaxCounters][48];
  std::uint64_t counter[kMaxCounters];
  std::uint64_t n_entries;
  int overflow;
  Entry entries[kMaxEntries];
};

struct RunConfig {
  bool replay = false;
  std::uint64_t seed = 0;
  const std::vector<Entry> *trace = nullptr;
  std::uint64_t max_steps = 0;
  const char *hang_class = nullptr;
};

constexpr int kMaxFibers = 64;

struct Fiber {
  void *sp;
  char *stack;
  FiberFn fn;
  void *arg;
  int rank, slot;
  bool done;
  void *eh[2];
  std::vector<void *> *tls;
  std::uint64_t prio;
  std::uint64_t last_run; // step at which it last ran or became runnable
};

extern Fiber g_fibers[kMaxFibers];
extern int g_num_fibers;
extern int g_current;
extern std::uint64_t g_runnable; // bit mask
extern bool g_active;
extern Result *g_result;
// called when nothing is runnable; returns true if it made something runnable
extern bool (*g_idle_hook)();
extern std::string (*g_deadlock_info)();

std::uint64_t raw_rand(Kind kind); // PRNG of the stream (PRNG mode only, unrecorded)
bool replaying();

void execute_run(const RunConfig &cfg, Result *res); // never returns to scheduling after finish
[[noreturn]] void finish(Status st);

inline std::uint64_t mix(std::uint64_t h, std::uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 32;
  return h;
}

// heap
namespace heap {
void begin_run(std::uint8_t fill);
void end_run();
void check_all();     // verify canaries of all live and quarantined blocks
extern bool in_run;
constexpr std::uintptr_t kRun = 0x310000000000ull; // arena of a run
constexpr std::size_t kRunSize = 256ull << 30;
constexpr std::uintptr_t kShadow = 0x360000000000ull;
void check_range(const void *p, std::size_t n, bool write, const void *pc);
[[noreturn]] void bad_access(const void *p, std::size_t n, const void *pc, bool write);
} // namespace heap

void tls_new_fiber(Fiber &f);
void print_pcs(void **pcs, int n); // debugging
} // namespace sim

extern "C" {
extern std::int64_t g_sim_budget;
extern std::uintptr_t g_image_base[16];
extern unsigned g_site_and, g_site_val; // accesses of these program positions are likely preempted
void sim_site_slow(void *pc);
extern std::uintptr_t g_sim_heap_top;
void sim_preempt_slow(void *pc);
}
