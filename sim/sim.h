// Deterministic simulator: public interface.
//
// Everything in here is single OS thread. Simulated threads ("fibers") are switched by the
// simulator only; every choice is drawn from a seeded PRNG stream and recorded in a sparse trace.
#pragma once

#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------------------------------------
// Choices. Every nondeterministic decision of a run is a choice of some kind. A choice whose
// value is 0 is not recorded, so a trace is the sparse list of the non-default choices.
enum Kind : std::uint8_t {
  K_WORK = 0,   // workload generation (sizes, graphs, operations, configuration)
  K_PREEMPT,    // preemption at an instrumented access: ordinal = access counter, value = fiber+1
  K_PICK,       // who runs next when the running fiber blocks
  K_STEAL,      // which task an idle worker takes
  K_FAULT,      // injected faults (I/O, allocation, clock, network)
  K_NET,        // message timing / matching
  K_SCHED,      // per-run scheduler configuration (not replayed: its effects are)
  K_COUNT
};

std::uint64_t choose(Kind kind, std::uint64_t n); // uniform in [0, n)
bool chance(Kind kind, double p);                 // true with probability p (0 = default)

// Workload helpers (K_WORK). `range` returns lo when the choice is shrunk to 0.
inline std::uint64_t range(std::uint64_t lo, std::uint64_t hi) {
  return lo + choose(K_WORK, hi - lo + 1);
}
inline bool coin(double p = 0.5) { return chance(K_WORK, p); }
template <typename T> inline const T &pick(const std::vector<T> &v) {
  return v[choose(K_WORK, v.size())];
}

// ---------------------------------------------------------------------------------------------
// Reporting.
// `cls` identifies the kind of violation (kept stable while minimising), `msg` is free text.
[[noreturn]] void fail(const std::string &cls, const std::string &msg);
// End the run as held (from inside the code under test, e.g. an exit hook).
[[noreturn]] void done();
// Stop the run without a verdict (workload not applicable etc.).
[[noreturn]] void discard(const std::string &why);
void note(const std::string &text);      // short human readable description of the case
void log_event(std::uint64_t value);     // goes into the event-log hash
void log_bytes(const void *p, std::size_t n);
void count(const char *name, std::uint64_t n = 1); // named reach / fault counters
void mark_nontrivial();                  // the case satisfied the check's non-triviality rule
void case_key(std::uint64_t key);        // identifies the workload (distinctness)

#define SIM_STR_(x) #x
#define SIM_STR(x) SIM_STR_(x)
#define SIM_CHECK(cond, cls, msg)                                                                  \
  do {                                                                                             \
    if (!(cond)) {                                                                                 \
      ::sim::fail(cls, msg);                                                                       \
    }                                                                                              \
  } while (0)

// ---------------------------------------------------------------------------------------------
// Fibers.
using FiberFn = void (*)(void *);
int spawn_fiber(FiberFn fn, void *arg, int rank, int slot);
int current_fiber();
int fiber_rank(int fiber);
int fiber_slot(int fiber);
inline int current_rank() { return fiber_rank(current_fiber()); }
void yield();                    // scheduling point, current stays runnable
void block();                    // current becomes blocked until wake()
void wake(int fiber);
bool in_run();
extern void (*exit_hook)(int); // called when the code under test calls exit()
void heap_fill(std::uint8_t pattern); // content of fresh memory from now on
std::uint64_t steps();
std::uint64_t now_ns();          // simulated clock
void advance_ns(std::uint64_t ns);
void note_progress();            // resets the no-progress counter

struct NoPreempt {
  NoPreempt();
  ~NoPreempt();
};

// ---------------------------------------------------------------------------------------------
// TBB runtime.
void tbb_configure(int workers);            // number of simulated hardware threads of this rank
int tbb_workers();

// Per-run fault configuration; everything off by default. A check's workload turns on what it
// wants before it calls into the code under test.
struct FaultConfig {
  bool clock_jumps = false;       // the wall clock jumps forwards and backwards
  double alloc_fail = 0;          // probability that an allocation of >= alloc_min bytes fails
  std::size_t alloc_min = 1;
  double stall_rank = 0;          // a process stalls before an MPI call
  double stall_worker = 0;        // worker stalls before taking a task
};
extern FaultConfig faults;

// ---------------------------------------------------------------------------------------------
// Simulated files: relative paths and paths that start with "/sim/" never reach the real file system.
namespace fs {
struct Faults {
  double open_fail = 0, open_eintr = 0;
  double read_short = 0, read_eintr = 0, read_eio = 0;
  double write_short = 0, write_eintr = 0, write_eio = 0;
  std::int64_t disk_capacity = -1;    // bytes; writes beyond fail with ENOSPC
  double mmap_fail = 0, fstat_fail = 0, close_fail = 0;
};
extern Faults faults;
struct Fired {
  std::uint64_t open_fail, open_eintr, read_short, read_eintr, read_eio, write_short, write_eintr,
      write_eio, enospc, mmap_fail, fstat_fail, close_fail;
  std::uint64_t hard() const {
    return open_fail + read_eio + write_eio + enospc + mmap_fail + fstat_fail + close_fail;
  }
};
extern Fired fired;
void reset();
void put(const std::string &path, const std::string &content);
bool exists(const std::string &path);
std::string get(const std::string &path);
void remove(const std::string &path);
std::size_t open_files(); // not yet closed
std::vector<std::string> files();
} // namespace fs

// ---------------------------------------------------------------------------------------------
// A check.
struct Check {
  const char *name;
  void (*run)();                 // one simulated run (executed in a fresh process image)
  std::uint64_t max_steps;       // no-progress bound
  const char *hang_class;        // nullptr: exceeding max_steps is no verdict
};
extern Check the_check;          // defined by the check's translation unit

inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char *f, ...) {
  char buf[2048];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof(buf), f, ap);
  va_end(ap);
  return buf;
}

} // namespace sim
