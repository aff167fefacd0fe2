#include "core.h"

#include <dlfcn.h>
#include <execinfo.h>

#include <csignal>
#include <cstdlib>
#include <cxxabi.h>
#include <link.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

extern "C" {
std::int64_t g_sim_budget = INT64_MAX / 2;
}

namespace sim {

Fiber g_fibers[kMaxFibers];
int g_num_fibers = 0;
int g_current = 0;
std::uint64_t g_runnable = 0;
bool g_active = false;
Result *g_result = nullptr;
bool (*g_idle_hook)() = nullptr;
std::string (*g_deadlock_info)() = nullptr;
FaultConfig faults;

namespace {
RunConfig g_cfg;
int g_nopreempt = 0;

struct Rng {
  std::uint64_t s;
  std::uint64_t next() {
    std::uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
};
Rng g_rng[K_COUNT];
std::uint64_t g_ord[K_COUNT];

// trace mode: entries per kind sorted by ordinal
std::vector<Entry> *g_trace[K_COUNT];
std::size_t g_cursor[K_COUNT];

std::uint64_t g_step_base = 0;    // steps before the current budget window
std::int64_t g_budget_start = 0;  // window size
std::uint64_t g_extra_ns = 0;
std::uint64_t g_hash = 0, g_sched_hash = 0, g_switches = 0, g_preemptions = 0;
std::uint64_t g_progress_mark = 0;

// scheduling policy of this run
int g_policy = 0;              // 0 uniform, 1 priorities, 2 mostly keep one fiber starved
std::uint64_t g_mean = 100;
int g_starved = -1;
std::uint64_t g_same_streak = 0;

std::uint64_t module_offset(void *pc) {
  struct Ctx {
    std::uintptr_t pc, base;
  } ctx{reinterpret_cast<std::uintptr_t>(pc), 0};
  // cheap cache: modules are few and the answer for a page never changes
  static std::uintptr_t cache_lo[16], cache_hi[16], cache_base[16];
  static int n = 0;
  for (int i = 0; i < n; ++i) {
    if (ctx.pc >= cache_lo[i] && ctx.pc < cache_hi[i]) {
      return ctx.pc - cache_base[i];
    }
  }
  struct Found {
    std::uintptr_t pc, base, lo, hi;
  } f{ctx.pc, 0, 0, 0};
  dl_iterate_phdr(
      [](struct dl_phdr_info *info, std::size_t, void *data) {
        auto *f = static_cast<Found *>(data);
        for (int i = 0; i < info->dlpi_phnum; ++i) {
          const auto &p = info->dlpi_phdr[i];
          if (p.p_type == PT_LOAD) {
            const std::uintptr_t lo = info->dlpi_addr + p.p_vaddr;
            if (f->pc >= lo && f->pc < lo + p.p_memsz) {
              f->base = info->dlpi_addr;
              f->lo = lo;
              f->hi = lo + p.p_memsz;
              return 1;
            }
          }
        }
        return 0;
      },
      &f
  );
  if (f.hi != 0 && n < 16) {
    cache_lo[n] = f.lo;
    cache_hi[n] = f.hi;
    cache_base[n] = f.base;
    ++n;
  }
  return f.pc - f.base;
}

void record(Kind kind, std::uint64_t ordinal, std::uint64_t value) {
  g_hash = mix(g_hash, (static_cast<std::uint64_t>(kind) << 56) ^ ordinal);
  g_hash = mix(g_hash, value);
  if (kind == K_SCHED) {
    return;
  }
  if (kind == K_WORK) {
    g_result->case_key = mix(g_result->case_key, ordinal * 1000003 + value);
  }
  if (g_result->n_entries < kMaxEntries) {
    g_result->entries[g_result->n_entries++] = {ordinal, value, static_cast<std::uint64_t>(kind)};
  } else {
    g_result->overflow = 1;
  }
}

// fairness: nobody runs longer than this while others are runnable (spin locks need it)
constexpr std::uint64_t kFairSteps = 500000;
std::uint64_t g_fair_at = kFairSteps; // the next such point
// after such an intervention, no preemptions at program positions for a while: the holder of a spin lock
// gets the time to release it
constexpr std::uint64_t kCalmSteps = 20000;
std::uint64_t g_calm_until = 0;

std::uint64_t gap() {
  // geometric-ish gap with mean g_mean
  const std::uint64_t r = g_rng[K_PREEMPT].next();
  // occasionally very short gaps, so that bursts of switches around one access happen
  if ((r & 15) == 0) {
    return 1 + ((r >> 8) % 8);
  }
  const double u = ((r >> 11) + 1) * (1.0 / 9007199254740993.0);
  const double g = -__builtin_log(u) * static_cast<double>(g_mean);
  return 1 + static_cast<std::uint64_t>(g);
}

void arm() {
  const std::uint64_t now = steps();
  std::uint64_t next;
  if (g_cfg.replay) {
    auto &t = *g_trace[K_PREEMPT];
    while (g_cursor[K_PREEMPT] < t.size() && t[g_cursor[K_PREEMPT]].ordinal <= now) {
      ++g_cursor[K_PREEMPT];
    }
    next = g_cursor[K_PREEMPT] < t.size() ? t[g_cursor[K_PREEMPT]].ordinal - now : UINT64_MAX;
  } else {
    next = gap();
  }
  const std::uint64_t limit = g_cfg.max_steps > now ? g_cfg.max_steps - now : 1;
  if (next > limit) {
    next = limit;
  }
  // fairness is judged at fixed points, the same in recording and replay
  const std::uint64_t fair = g_fair_at > now ? g_fair_at - now : 1;
  if (next > fair) {
    next = fair;
  }
  g_step_base = now;
  g_budget_start = static_cast<std::int64_t>(next);
  g_sim_budget = g_budget_start;
}

// Context switch --------------------------------------------------------------------------------
extern "C" void sim_switch(void **save_sp, void *load_sp);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8, %rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch,.-sim_switch
)");

constexpr std::size_t kStackSize = 64ull << 20;
char *g_stack_region = nullptr;

void fiber_entry() {
  Fiber &f = g_fibers[g_current];
  f.fn(f.arg);
  f.done = true;
  g_runnable &= ~(1ull << g_current);
  block(); // never returns
  abort();
}

void switch_to(int target, void *pc) {
  if (target == g_current) {
    return;
  }
  ++g_switches;
  g_sched_hash = mix(g_sched_hash, (static_cast<std::uint64_t>(target) << 48) ^ module_offset(pc));
  g_hash = mix(g_hash, (static_cast<std::uint64_t>(target) << 48) ^ steps());
  void **globals = reinterpret_cast<void **>(abi::__cxa_get_globals());
  Fiber &from = g_fibers[g_current];
  Fiber &to = g_fibers[target];
  from.eh[0] = globals[0];
  from.eh[1] = globals[1];
  globals[0] = to.eh[0];
  globals[1] = to.eh[1];
  from.last_run = steps();
  g_fair_at = from.last_run + kFairSteps;
  g_current = target;
  sim_switch(&from.sp, to.sp);
}

int nth_runnable(std::uint64_t mask, std::uint64_t n) {
  while (n-- > 0) {
    mask &= mask - 1;
  }
  return __builtin_ctzll(mask);
}

int policy_pick(std::uint64_t mask) {
  const int cnt = __builtin_popcountll(mask);
  if (cnt == 1) {
    return __builtin_ctzll(mask);
  }
  const std::uint64_t r = g_rng[K_SCHED].next();
  if (g_policy == 1) {
    if ((r & 63) == 0) { // change point: demote somebody
      const int f = nth_runnable(mask, (r >> 8) % cnt);
      g_fibers[f].prio = r >> 20;
    }
    int best = -1;
    for (std::uint64_t m = mask; m != 0; m &= m - 1) {
      const int f = __builtin_ctzll(m);
      if (best < 0 || g_fibers[f].prio > g_fibers[best].prio) {
        best = f;
      }
    }
    return best;
  }
  if (g_policy == 2) {
    if ((r & 127) == 0) {
      g_starved = nth_runnable(mask, (r >> 8) % cnt);
    }
    if (g_starved >= 0 && (mask >> g_starved) & 1 && (r & 31) != 31) {
      mask &= ~(1ull << g_starved);
      return nth_runnable(mask, (r >> 16) % (cnt - 1));
    }
  }
  return nth_runnable(mask, (r >> 16) % cnt);
}

void out_of_steps() {
  if (g_cfg.hang_class != nullptr) {
    fail(
        g_cfg.hang_class,
        fmt("no termination within the bound of %llu simulated steps",
            (unsigned long long)g_cfg.max_steps)
    );
  }
  finish(ST_STEPS);
}

[[noreturn]] void deadlock() {
  std::string info = "no simulated thread can make progress";
  if (g_deadlock_info != nullptr) {
    info += "; " + g_deadlock_info();
  }
  fail("deadlock", info);
}

} // namespace

bool replaying() {
  return g_cfg.replay;
}

std::uint64_t raw_rand(Kind kind) {
  return g_rng[kind].next();
}

std::uint64_t steps() {
  return g_step_base + static_cast<std::uint64_t>(g_budget_start - g_sim_budget);
}

std::uint64_t now_ns() {
  return steps() + g_extra_ns;
}

void advance_ns(std::uint64_t ns) {
  g_extra_ns += ns;
}

bool in_run() {
  return g_active;
}

int current_fiber() {
  return g_current;
}
int fiber_rank(int fiber) {
  return g_fibers[fiber].rank;
}
int fiber_slot(int fiber) {
  return g_fibers[fiber].slot;
}

NoPreempt::NoPreempt() {
  ++g_nopreempt;
}
NoPreempt::~NoPreempt() {
  --g_nopreempt;
}

std::uint64_t choose(Kind kind, std::uint64_t n) {
  if (!g_active) {
    return 0;
  }
  const std::uint64_t ord = g_ord[kind]++;
  if (n <= 1) {
    return 0;
  }
  std::uint64_t v = 0;
  if (g_cfg.replay) {
    if (kind == K_SCHED) {
      return 0;
    }
    auto &t = *g_trace[kind];
    auto &c = g_cursor[kind];
    while (c < t.size() && t[c].ordinal < ord) {
      ++c;
    }
    if (c < t.size() && t[c].ordinal == ord) {
      v = t[c].value;
      if (v >= n) {
        v = n - 1;
      }
    }
  } else {
    v = static_cast<std::uint64_t>(
        (static_cast<unsigned __int128>(g_rng[kind].next()) * n) >> 64
    );
  }
  if (v != 0) {
    record(kind, ord, v);
  }
  return v;
}

bool chance(Kind kind, double p) {
  if (!g_active || p <= 0) {
    return false;
  }
  const std::uint64_t ord = g_ord[kind]++;
  bool v = false;
  if (g_cfg.replay) {
    if (kind != K_SCHED) {
      auto &t = *g_trace[kind];
      auto &c = g_cursor[kind];
      while (c < t.size() && t[c].ordinal < ord) {
        ++c;
      }
      v = c < t.size() && t[c].ordinal == ord && t[c].value != 0;
    }
  } else {
    v = (g_rng[kind].next() >> 11) * (1.0 / 9007199254740992.0) < p;
  }
  if (v) {
    record(kind, ord, 1);
  }
  return v;
}

static void copy_str(char *dst, std::size_t cap, const std::string &s) {
  const std::size_t n = s.size() < cap - 1 ? s.size() : cap - 1;
  std::memcpy(dst, s.data(), n);
  dst[n] = 0;
}

void finish(Status st) {
  g_active = false;
  g_result->hash = mix(g_hash, steps());
  g_result->sched_hash = g_sched_hash;
  g_result->steps = steps();
  g_result->switches = g_switches;
  g_result->preemptions = g_preemptions;
  g_result->now_ns = now_ns();
  __sync_synchronize();
  g_result->status = st;
  _exit(0);
}

static bool g_failing = false;

void print_pcs(void **pcs, int n) {
  for (int i = 0; i < n; ++i) {
    Dl_info info;
    if (dladdr(pcs[i], &info) != 0 && info.dli_fname != nullptr) {
      const bool rank = strncmp(info.dli_fname, "/proc/self/fd/", 14) == 0;
      fprintf(
          stderr, "BT %s %#zx\n", rank ? "so" : info.dli_fname,
          reinterpret_cast<std::uintptr_t>(pcs[i]) - (rank ? reinterpret_cast<std::uintptr_t>(info.dli_fbase) : 0)
      );
    }
  }
}

static void print_backtrace() {
  void *pcs[60];
  const int n = backtrace(pcs, 60);
  print_pcs(pcs, n);
}

void fail(const std::string &cls, const std::string &msg) {
  if (!g_failing) {
    g_failing = true;
    copy_str(g_result->cls, sizeof(g_result->cls), cls);
    copy_str(g_result->msg, sizeof(g_result->msg), msg);
    if (getenv("SIM_BACKTRACE") != nullptr) {
      print_backtrace();
    }
  }
  finish(ST_FAIL);
}

void done() {
  finish(ST_OK);
}

void discard(const std::string &why) {
  copy_str(g_result->msg, sizeof(g_result->msg), why);
  finish(ST_DISCARD);
}

void note(const std::string &text) {
  if (g_result == nullptr) {
    return;
  }
  std::string s = g_result->note;
  if (!s.empty()) {
    s += "; ";
  }
  s += text;
  copy_str(g_result->note, sizeof(g_result->note), s);
}

void log_event(std::uint64_t value) {
  g_hash = mix(g_hash, value ^ 0x5bd1e995);
}
void log_bytes(const void *p, std::size_t n) {
  const unsigned char *c = static_cast<const unsigned char *>(p);
  std::uint64_t h = n;
  for (std::size_t i = 0; i < n; ++i) {
    h = (h ^ c[i]) * 0x100000001b3ull;
  }
  log_event(h);
}

void count(const char *name, std::uint64_t n) {
  if (g_result == nullptr || n == 0) {
    return;
  }
  for (int i = 0; i < g_result->n_counters; ++i) {
    if (std::strcmp(g_result->counter_name[i], name) == 0) {
      g_result->counter[i] += n;
      return;
    }
  }
  if (g_result->n_counters < kMaxCounters) {
    const int i = g_result->n_counters++;
    copy_str(g_result->counter_name[i], sizeof(g_result->counter_name[i]), name);
    g_result->counter[i] = n;
  }
}

void mark_nontrivial() {
  g_result->nontrivial = 1;
}
void case_key(std::uint64_t key) {
  g_result->case_key = mix(g_result->case_key, key);
}

void note_progress() {
  g_progress_mark = steps();
}

int spawn_fiber(FiberFn fn, void *arg, int rank, int slot) {
  if (g_num_fibers >= kMaxFibers) {
    fail("simulator-error", "too many fibers");
  }
  const int id = g_num_fibers++;
  Fiber &f = g_fibers[id];
  f = Fiber{};
  f.fn = fn;
  f.arg = arg;
  f.rank = rank;
  f.slot = slot;
  f.prio = raw_rand(K_SCHED);
  f.last_run = steps();
  f.stack = g_stack_region + static_cast<std::size_t>(id) * kStackSize;
  mprotect(f.stack, 4096, PROT_NONE);
  tls_new_fiber(f);
  std::uintptr_t top = reinterpret_cast<std::uintptr_t>(f.stack) + kStackSize - 256;
  top &= ~static_cast<std::uintptr_t>(63);
  void **sp = reinterpret_cast<void **>(top);
  *--sp = nullptr;                                     // alignment / fake return address
  *--sp = reinterpret_cast<void *>(&fiber_entry);      // ret target
  for (int i = 0; i < 6; ++i) {
    *--sp = nullptr;
  }
  --sp;
  std::uint32_t mxcsr;
  std::uint16_t fcw;
  asm volatile("stmxcsr %0" : "=m"(mxcsr));
  asm volatile("fnstcw %0" : "=m"(fcw));
  reinterpret_cast<std::uint32_t *>(sp)[0] = mxcsr;
  reinterpret_cast<std::uint16_t *>(sp)[2] = fcw;
  f.sp = sp;
  g_runnable |= 1ull << id;
  return id;
}

static int pick_and_record(std::uint64_t mask) {
  const std::uint64_t ord = g_ord[K_PICK]++;
  if ((mask & (mask - 1)) == 0) {
    return __builtin_ctzll(mask);
  }
  if (g_cfg.replay) {
    auto &t = *g_trace[K_PICK];
    auto &c = g_cursor[K_PICK];
    while (c < t.size() && t[c].ordinal < ord) {
      ++c;
    }
    if (c < t.size() && t[c].ordinal == ord) {
      const std::uint64_t f = t[c].value - 1;
      if (f < kMaxFibers && (mask >> f) & 1) {
        record(K_PICK, ord, f + 1);
        return static_cast<int>(f);
      }
    }
    return __builtin_ctzll(mask);
  }
  const int f = policy_pick(mask);
  if (f != __builtin_ctzll(mask)) {
    record(K_PICK, ord, f + 1);
  }
  return f;
}

void block() {
  void *pc = __builtin_return_address(0);
  g_runnable &= ~(1ull << g_current);
  while (g_runnable == 0) {
    if (g_idle_hook == nullptr || !g_idle_hook()) {
      deadlock();
    }
  }
  if (steps() >= g_cfg.max_steps) {
    out_of_steps();
  }
  switch_to(pick_and_record(g_runnable), pc);
}

void yield() {
  if (!g_active || g_nopreempt > 0) {
    return;
  }
  g_sim_budget -= 1;
  if (steps() >= g_cfg.max_steps) {
    out_of_steps();
  }
  void *pc = __builtin_return_address(0);
  if ((g_runnable & ~(1ull << g_current)) == 0) {
    return;
  }
  // a yielding fiber gives way to somebody else: the pick is over the others
  switch_to(pick_and_record(g_runnable & ~(1ull << g_current)), pc);
}

void wake(int fiber) {
  if (!g_fibers[fiber].done) {
    if ((g_runnable >> fiber & 1) == 0) {
      g_fibers[fiber].last_run = steps();
    }
    g_runnable |= 1ull << fiber;
  }
}

} // namespace sim

using namespace sim;

// Nobody starves while others take turns: the longest waiting fiber is next after a while.
static int starving(std::uint64_t others, std::uint64_t now, int target) {
  int oldest = -1;
  for (std::uint64_t m = others; m != 0; m &= m - 1) {
    const int f = __builtin_ctzll(m);
    if (oldest < 0 || g_fibers[f].last_run < g_fibers[oldest].last_run) {
      oldest = f;
    }
  }
  return now - g_fibers[oldest].last_run >= 4 * kFairSteps ? oldest : target;
}

extern "C" void sim_preempt_slow(void *pc) {
  if (!g_active) {
    g_sim_budget = INT64_MAX / 2;
    return;
  }
  const std::uint64_t now = steps();
  if (now >= g_cfg.max_steps) {
    out_of_steps();
  }
  const std::uint64_t others = g_runnable & ~(1ull << g_current);
  int target = -1;
  if (g_cfg.replay) {
    auto &t = *g_trace[K_PREEMPT];
    auto &c = g_cursor[K_PREEMPT];
    while (c < t.size() && t[c].ordinal < now) {
      ++c;
    }
    if (c < t.size() && t[c].ordinal == now) {
      const std::uint64_t f = t[c].value - 1;
      if (g_nopreempt == 0 && f < kMaxFibers && (others >> f) & 1) {
        target = static_cast<int>(f);
      }
    }
  } else if (g_nopreempt == 0 && others != 0) {
    const int f = policy_pick(g_runnable);
    if (f != g_current) {
      target = f;
      g_same_streak = 0;
    } else if (++g_same_streak > 2000) {
      // fairness: nobody runs forever while others are runnable
      g_same_streak = 0;
      g_fibers[f].prio = 0;
      target = nth_runnable(others, raw_rand(K_SCHED) % __builtin_popcountll(others));
    }
  }
  const bool deadline = now >= g_fair_at;
  while (g_fair_at <= now) {
    g_fair_at += kFairSteps;
  }
  if (target < 0 && g_nopreempt == 0 && others != 0 && deadline) {
    // round robin
    const std::uint64_t above = others & ~((2ull << g_current) - 1);
    target = __builtin_ctzll(above != 0 ? above : others);
    g_fibers[g_current].prio = 0;
  }
  if (deadline) {
    g_calm_until = now + kCalmSteps;
  }
  if (g_nopreempt == 0 && others != 0 && (!g_cfg.replay || target >= 0 || deadline)) {
    target = starving(others, now, target);
  }
  arm();
  if (target >= 0) {
    ++g_preemptions;
    record(K_PREEMPT, now, target + 1);
    switch_to(target, pc);
  }
}

// Preemptions at some program positions instead of at some points in time: rarely executed positions are
// hit as likely as hot ones.
unsigned g_site_and = 0, g_site_val = 1; // off
extern "C" const char __executable_start;
std::uintptr_t g_image_base[16]; // of each rank's code
extern "C" void sim_site_slow(void *pc) {
  static std::uint32_t hits[1 << 18];
  // With all positions selected, each one only counts for its first executions.
  std::uintptr_t offset = reinterpret_cast<std::uintptr_t>(pc) - g_image_base[g_fibers[g_current].rank];
  if (offset >> 30 != 0) {
    offset = reinterpret_cast<std::uintptr_t>(pc) & 0xfff; // not of the image: the rest of the address is not repeatable
  }
  std::uint32_t &h = hits[offset & ((1 << 18) - 1)];
  if (g_site_and == 0 && h >= 64) {
    return;
  }
  const std::uint64_t others = g_runnable & ~(1ull << g_current);
  if (!g_active || g_nopreempt > 0 || others == 0 || g_cfg.replay) {
    return;
  }
  if (steps() < g_calm_until) {
    return;
  }
  const std::uint64_t r = g_rng[K_PREEMPT].next();
  if (r % (16 + h) >= 12) {
    h += h < 100000;
    return;
  }
  ++h;
  int target = policy_pick(g_runnable);
  if (target == g_current) {
    target = nth_runnable(others, (r >> 32) % __builtin_popcountll(others));
  }
  const std::uint64_t now = steps();
  target = starving(others, now, target); // as in replay
  arm();
  ++g_preemptions;
  record(K_PREEMPT, now, target + 1);
  switch_to(target, pc);
}

// Only called in builds for tools/coverage: marks the executed blocks in a file shared by all runs.
static unsigned char *g_cov = nullptr;
constexpr std::size_t kCovSize = 64u << 20;
__attribute__((constructor(101))) static void init_cov() {
  const char *dir = getenv("SIM_COV");
  char name[4096];
  if (dir == nullptr || snprintf(name, sizeof(name), "%s/%s.cov", dir, program_invocation_short_name) >= static_cast<int>(sizeof(name))) {
    return;
  }
  const long fd = syscall(SYS_open, name, O_RDWR | O_CREAT, 0644);
  if (fd < 0 || syscall(SYS_ftruncate, fd, kCovSize) != 0) {
    return;
  }
  void *p = reinterpret_cast<void *>(syscall(SYS_mmap, nullptr, kCovSize, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
  g_cov = p == MAP_FAILED ? nullptr : static_cast<unsigned char *>(p);
}
extern "C" void __sanitizer_cov_trace_pc() {
  const std::uintptr_t base = g_image_base[0] == 0 ? reinterpret_cast<std::uintptr_t>(&__executable_start)
                                                   : g_image_base[g_fibers[g_current].rank];
  const std::uintptr_t off = reinterpret_cast<std::uintptr_t>(__builtin_return_address(0)) - base;
  if (g_cov != nullptr && off < kCovSize) {
    g_cov[off] = 1;
  }
}

// Run execution ----------------------------------------------------------------------------------
namespace sim {
namespace {
char g_sigstack[1 << 16];

void on_signal(int sig, siginfo_t *info, void *) {
  static volatile int nested = 0;
  if (nested != 0) {
    _exit(3);
  }
  nested = 1;
  const char *name = sig == SIGSEGV ? "SIGSEGV"
                     : sig == SIGBUS ? "SIGBUS"
                     : sig == SIGFPE ? "SIGFPE"
                     : sig == SIGILL ? "SIGILL"
                                     : "SIGABRT";
  if (g_result != nullptr && g_active) {
    char *m = g_result->msg;
    if (!g_failing) {
      g_failing = true;
      snprintf(g_result->cls, sizeof(g_result->cls), "crash:%s", name);
      snprintf(
          m, sizeof(g_result->msg), "%s in fiber %d (rank %d, slot %d)%s", name, g_current,
          g_fibers[g_current].rank, g_fibers[g_current].slot,
          sig == SIGABRT ? " (abort / uncaught exception / failed assertion)" : ""
      );
    }
    if (getenv("SIM_BACKTRACE") != nullptr) {
      print_backtrace();
      fprintf(stderr, "fault address %p\n", info->si_addr);
      signal(sig, SIG_DFL);
      raise(sig);
      return;
    }
    finish(ST_FAIL);
  }
  _exit(3);
}

void main_fiber(void *) {
  the_check.run();
  heap::check_all();
  finish(ST_OK);
}
} // namespace

void reserve_stacks() {
  void *want = reinterpret_cast<void *>(0x200000000000ull);
  void *p = mmap(
      want, kStackSize * kMaxFibers, PROT_READ | PROT_WRITE,
      MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0
  );
  if (p == MAP_FAILED) {
    perror("mmap stacks");
    _exit(4);
  }
  g_stack_region = static_cast<char *>(p);
}

void execute_run(const RunConfig &cfg, Result *res) {
  g_cfg = cfg;
  g_result = res;
  for (int k = 0; k < K_COUNT; ++k) {
    g_rng[k].s = mix(mix(0x1234567, cfg.seed), k * 7919 + 13);
    g_rng[k].next();
    g_ord[k] = 0;
    g_cursor[k] = 0;
    g_trace[k] = new std::vector<Entry>();
  }
  if (cfg.replay) {
    for (const Entry &e : *cfg.trace) {
      if (e.kind < K_COUNT) {
        g_trace[e.kind]->push_back(e);
      }
    }
  }

  stack_t ss{};
  ss.ss_sp = g_sigstack;
  ss.ss_size = sizeof(g_sigstack);
  sigaltstack(&ss, nullptr);
  struct sigaction sa {};
  sa.sa_sigaction = on_signal;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) {
    sigaction(s, &sa, nullptr);
  }

  if (g_image_base[0] == 0) {
    std::fill(std::begin(g_image_base), std::end(g_image_base), reinterpret_cast<std::uintptr_t>(&__executable_start));
  }
  g_active = true;
  g_step_base = 0;
  g_budget_start = g_sim_budget = 0;

  static const std::uint64_t means[] = {12, 40, 120, 500, 2000, 10000, 60000};
  const std::uint64_t r = raw_rand(K_SCHED);
  g_policy = static_cast<int>((r >> 3) % 4);
  g_mean = means[(r >> 10) % 7];
  if ((r >> 16) % 3 == 0) {
    static const unsigned masks[] = {0, 7, 31, 127, 511};
    static const std::uint64_t site_means[] = {2000, 10000, 60000, 1000000};
    g_site_and = masks[(r >> 20) % 5];
    g_site_val = static_cast<unsigned>(r >> 32) & g_site_and;
    g_mean = site_means[(r >> 24) % 4];
  }
  const std::uint8_t fill = static_cast<std::uint8_t>(choose(K_WORK, 3));
  static const std::uint8_t fills[] = {0x00, 0xFF, 0xA5};

  spawn_fiber(&main_fiber, nullptr, 0, 0);
  arm();
  heap::begin_run(fills[fill]);
  static void *dummy;
  g_current = 0;
  sim_switch(&dummy, g_fibers[0].sp);
  _exit(5);
}
} // namespace sim
