// Simulated oneTBB runtime: the real oneTBB headers are used unchanged; the scheduler behind them
// (task pools, stealing, arenas, contexts, allocation) is this file. Workers are fibers.
//
// What real oneTBB allows and this reproduces: LIFO execution of own tasks, FIFO stealing from random
// victims, a waiting thread executing unrelated tasks (unless isolated), workers that join late or
// never, arbitrary mapping of workers to arena slots, soft limits by global_control.
#include <atomic>
#include <cstdint>
#include <deque>
#include <exception>
#include <map>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <string>
#include <vector>

#define private public
#define protected public
#include <tbb/global_control.h>
#include <tbb/info.h>
#include <tbb/task_arena.h>
#include <tbb/task_group.h>
#include <tbb/task_scheduler_observer.h>
#include <tbb/tbb_allocator.h>
#include <tbb/cache_aligned_allocator.h>
#include <tbb/parallel_for.h>
#include <tbb/spin_rw_mutex.h>
#include <tbb/mutex.h>
#undef private
#undef protected

#include "core.h"
#include <cstdlib>

using namespace tbb::detail;

namespace tbb::detail::r1 {
class task_dispatcher { // a friend of wait_context
public:
  static bool pending(const d1::wait_context &wc) {
    return wc.m_ref_count.load(std::memory_order_relaxed) != 0;
  }
};
} // namespace tbb::detail::r1

namespace {
struct Item {
  d1::task *t = nullptr;
  d1::task_group_context *ctx = nullptr;
  std::intptr_t isolation = 0;
  d1::slot_id affinity = d1::no_slot;
  std::uint64_t not_before = 0;
};

struct Worker {
  int fiber = -1;
  int slot = 0;
  bool active = false; // has joined the arena
  bool initialised = false;
  std::deque<Item> q;
  d1::task_group_context *ctx = nullptr;
  std::intptr_t isolation = 0;
};

struct ExecData : d1::execution_data {
  Worker *w;
};

struct Pool { // one per rank ("process")
  int P = 1;
  std::vector<Worker> workers;
  std::deque<Item> enqueued;
  std::uint64_t waiting = 0; // fibers blocked because there is nothing to do
  std::uint64_t active = 0;  // workers (not the external thread) in the arena
  std::multimap<std::size_t, d1::global_control *> controls[8];
  std::vector<int> free_slots;
};

constexpr int kMaxRanks = 32;
Pool *g_pools[kMaxRanks];
Worker *g_worker_of[sim::kMaxFibers];
std::intptr_t g_isolation_counter = 1;

Pool &pool() {
  Pool *&p = g_pools[sim::current_rank()];
  if (p == nullptr) {
    p = new Pool();
    p->workers.resize(1);
    p->workers[0].fiber = sim::current_fiber();
    p->workers[0].active = true;
    g_worker_of[sim::current_fiber()] = &p->workers[0];
  }
  return *p;
}

Worker &self() {
  Pool &p = pool();
  Worker *w = g_worker_of[sim::current_fiber()];
  if (w == nullptr) {
    // a fiber of this rank that is no TBB worker (e.g. a simulated user thread): own slot 0 queue
    w = new Worker();
    w->fiber = sim::current_fiber();
    w->slot = 0;
    w->active = true;
    g_worker_of[sim::current_fiber()] = w;
    (void)p;
  }
  return *w;
}

std::size_t active_limit(const Pool &p) {
  const auto &c = p.controls[d1::global_control::max_allowed_parallelism];
  std::size_t lim = p.P;
  if (!c.empty() && c.begin()->first < lim) {
    lim = c.begin()->first;
  }
  return lim < 1 ? 1 : lim;
}

void wake_waiting(Pool &p) {
  for (std::uint64_t m = p.waiting; m != 0; m &= m - 1) {
    sim::wake(__builtin_ctzll(m));
  }
  p.waiting = 0;
}

void store_exception(d1::task_group_context &ctx);
bool cancelled(d1::task_group_context *ctx) {
  for (int i = 0; ctx != nullptr && i < 64; ++i) {
    if (ctx->is_proxy()) {
      ctx = ctx->my_actual_context;
      continue;
    }
    if (ctx->my_cancellation_requested.load(std::memory_order_relaxed) != 0) {
      return true;
    }
    ctx = ctx->my_traits.bound ? ctx->my_parent : nullptr;
  }
  return false;
}

// Executes a task and everything it returns for bypass.
void execute_chain(Worker &w, Item item, int original_slot) {
  d1::task_group_context *saved_ctx = w.ctx;
  const std::intptr_t saved_iso = w.isolation;
  while (item.t != nullptr) {
    sim::note_progress();
    w.ctx = item.ctx;
    w.isolation = item.isolation;
    ExecData ed;
    ed.context = item.ctx;
    ed.original_slot = static_cast<d1::slot_id>(original_slot);
    ed.affinity_slot = item.affinity;
    ed.w = &w;
    d1::task *next = nullptr;
    try {
      if (cancelled(item.ctx)) {
        next = item.t->cancel(ed);
      } else {
        next = item.t->execute(ed);
      }
    } catch (...) {
      store_exception(item.ctx->actual_context());
      // the task did not finalize itself: real TBB re-dispatches it for cancellation
      next = item.t;
    }
    item.t = next;
    item.affinity = d1::no_slot;
    original_slot = w.slot;
  }
  w.ctx = saved_ctx;
  w.isolation = saved_iso;
}

struct ExceptionHolder {
  std::exception_ptr e;
};
void store_exception(d1::task_group_context &ctx) {
  if (ctx.my_cancellation_requested.exchange(1) == 0) {
    auto *h = new ExceptionHolder{std::current_exception()};
    ctx.my_exception.store(reinterpret_cast<r1::tbb_exception_ptr *>(h));
  }
}

bool pop_own(Worker &w, std::intptr_t isolation, Item &out) {
  for (std::size_t i = w.q.size(); i-- > 0;) {
    if (isolation == 0 || w.q[i].isolation == isolation) {
      out = w.q[i];
      w.q.erase(w.q.begin() + static_cast<std::ptrdiff_t>(i));
      return true;
    }
  }
  return false;
}

bool steal(Pool &p, Worker &me, std::intptr_t isolation, Item &out, int &original_slot) {
  // mailbox: tasks with affinity to this slot
  for (Worker &v : p.workers) {
    for (std::size_t i = 0; i < v.q.size(); ++i) {
      if (v.q[i].affinity == me.slot && (isolation == 0 || v.q[i].isolation == isolation)) {
        out = v.q[i];
        v.q.erase(v.q.begin() + static_cast<std::ptrdiff_t>(i));
        original_slot = v.slot;
        return true;
      }
    }
  }
  if (isolation == 0 && !p.enqueued.empty()) {
    out = p.enqueued.front();
    p.enqueued.pop_front();
    original_slot = -2;
    return true;
  }
  std::vector<int> victims;
  for (std::size_t v = 0; v < p.workers.size(); ++v) {
    if (&p.workers[v] != &me && !p.workers[v].q.empty()) {
      victims.push_back(static_cast<int>(v));
    }
  }
  while (!victims.empty()) {
    const std::size_t k = sim::choose(sim::K_STEAL, victims.size());
    Worker &v = p.workers[victims[k]];
    for (std::size_t i = 0; i < v.q.size(); ++i) {
      if (isolation == 0 || v.q[i].isolation == isolation) {
        out = v.q[i];
        v.q.erase(v.q.begin() + static_cast<std::ptrdiff_t>(i));
        original_slot = v.slot;
        sim::count("tbb.steals");
        return true;
      }
    }
    victims.erase(victims.begin() + static_cast<std::ptrdiff_t>(k));
  }
  return false;
}

void maybe_stall() {
  if (sim::faults.stall_worker > 0 && sim::chance(sim::K_FAULT, sim::faults.stall_worker)) {
    sim::count("fault:worker_stall");
    const std::uint64_t n = 1 + sim::choose(sim::K_FAULT, 30);
    sim::advance_ns(n * 1000000);
    for (std::uint64_t i = 0; i < n; ++i) {
      sim::yield();
    }
  }
}

void wait_loop(Worker &w, d1::wait_context &wc) {
  Pool &p = pool();
  const std::intptr_t isolation = w.isolation;
  while (r1::task_dispatcher::pending(wc)) {
    Item item;
    int original = w.slot;
    if (pop_own(w, isolation, item) || steal(p, w, isolation, item, original)) {
      maybe_stall();
      execute_chain(w, item, original);
      sim::yield();
      continue;
    }
    p.waiting |= 1ull << sim::current_fiber();
    sim::block();
  }
}

void worker_main(void *arg) {
  Worker &w = *static_cast<Worker *>(arg);
  Pool &p = *g_pools[sim::current_rank()];
  while (true) {
    Item item;
    int original = w.slot;
    // joining the arena is subject to the soft limit
    if (!w.active) {
      bool work = !p.enqueued.empty();
      for (const Worker &v : p.workers) {
        work |= !v.q.empty();
      }
      if (!work || p.active + 1 >= active_limit(p) || p.free_slots.empty()) {
        p.waiting |= 1ull << sim::current_fiber();
        sim::block();
        continue;
      }
      const std::size_t k = sim::choose(sim::K_STEAL, p.free_slots.size());
      w.slot = p.free_slots[k];
      p.free_slots.erase(p.free_slots.begin() + static_cast<std::ptrdiff_t>(k));
      w.active = true;
      w.initialised = true;
      ++p.active;
    }
    original = w.slot;
    if (pop_own(w, 0, item) || steal(p, w, 0, item, original)) {
      maybe_stall();
      execute_chain(w, item, original);
      sim::yield();
      continue;
    }
    // leave the arena
    w.active = false;
    --p.active;
    p.free_slots.push_back(w.slot);
    wake_waiting(p);
    p.waiting |= 1ull << sim::current_fiber();
    sim::block();
  }
}

void push(d1::task &t, d1::task_group_context &ctx, d1::slot_id aff) {
  Worker &w = self();
  w.initialised = true;
  Item item;
  item.t = &t;
  item.ctx = &ctx;
  item.isolation = w.isolation;
  item.affinity = aff;
  w.q.push_back(item);
  wake_waiting(pool());
  sim::yield();
}
} // namespace

namespace sim {
void tbb_configure(int workers) {
  Pool &p = pool();
  p.P = workers;
  if (p.workers.size() != 1) {
    fail("simulator-error", "tbb_configure called twice");
  }
  const int main_fiber = p.workers[0].fiber;
  p.workers = std::vector<Worker>(workers);
  p.workers[0].fiber = main_fiber;
  p.workers[0].active = true;
  g_worker_of[main_fiber] = &p.workers[0];
  for (int i = 1; i < workers; ++i) {
    Worker &w = p.workers[i];
    w.slot = i;
    p.free_slots.push_back(i);
    w.fiber = spawn_fiber(&worker_main, &w, current_rank(), i);
    g_worker_of[w.fiber] = &w;
  }
}
int tbb_workers() {
  if (!in_run()) {
    return 4;
  }
  return pool().P;
}
} // namespace sim

namespace tbb::detail::r1 {

void spawn(d1::task &t, d1::task_group_context &ctx) {
  push(t, ctx, d1::no_slot);
}
void spawn(d1::task &t, d1::task_group_context &ctx, d1::slot_id id) {
  push(t, ctx, id);
}
void submit(d1::task &t, d1::task_group_context &ctx, arena *, std::uintptr_t) {
  push(t, ctx, d1::no_slot);
}

static void rethrow(d1::task_group_context &c) {
  d1::task_group_context &ctx = c.actual_context();
  auto *h = reinterpret_cast<ExceptionHolder *>(ctx.my_exception.load());
  if (h != nullptr) {
    ctx.my_exception.store(nullptr);
    ctx.my_cancellation_requested.store(0);
    std::exception_ptr e = h->e;
    delete h;
    std::rethrow_exception(e);
  }
}

void execute_and_wait(
    d1::task &t, d1::task_group_context &t_ctx, d1::wait_context &wc, d1::task_group_context &w_ctx
) {
  Worker &w = self();
  w.initialised = true;
  Item item;
  item.t = &t;
  item.ctx = &t_ctx;
  item.isolation = w.isolation;
  execute_chain(w, item, w.slot);
  wait_loop(w, wc);
  rethrow(w_ctx);
}
void wait(d1::wait_context &wc, d1::task_group_context &ctx) {
  Worker &w = self();
  w.initialised = true;
  wait_loop(w, wc);
  rethrow(ctx);
}
d1::slot_id execution_slot(const d1::execution_data *ed) {
  if (ed != nullptr) {
    return static_cast<d1::slot_id>(static_cast<const ExecData *>(ed)->w->slot);
  }
  Worker &w = self();
  return w.initialised ? static_cast<d1::slot_id>(w.slot) : d1::slot_id(-1);
}
d1::task_group_context *current_context() {
  return self().ctx;
}
void notify_waiters(std::uintptr_t) {
  wake_waiting(pool());
}
void suspend(suspend_callback_type, void *) {
  sim::fail("simulator-error", "resumable tasks are not simulated");
}
void resume(suspend_point_type *) {}
suspend_point_type *current_suspend_point() {
  return nullptr;
}

// Contexts
void initialize(d1::task_group_context &ctx) {
  ctx.my_cpu_ctl_env = 0;
  ctx.my_cancellation_requested.store(0, std::memory_order_relaxed);
  ctx.my_may_have_children.store(0, std::memory_order_relaxed);
  ctx.my_state.store(d1::task_group_context::state::created, std::memory_order_relaxed);
  ctx.my_parent = sim::in_run() ? self().ctx : nullptr;
  ctx.my_context_list = nullptr;
  ctx.my_exception.store(nullptr, std::memory_order_relaxed);
  ctx.my_itt_caller = nullptr;
}
void destroy(d1::task_group_context &ctx) {
  auto *h = reinterpret_cast<ExceptionHolder *>(ctx.my_exception.load());
  delete h;
}
void reset(d1::task_group_context &ctx) {
  auto *h = reinterpret_cast<ExceptionHolder *>(ctx.my_exception.load());
  delete h;
  ctx.my_exception.store(nullptr);
  ctx.my_cancellation_requested.store(0);
}
bool cancel_group_execution(d1::task_group_context &ctx) {
  return ctx.my_cancellation_requested.exchange(1) == 0;
}
bool is_group_execution_cancelled(d1::task_group_context &ctx) {
  return cancelled(&ctx);
}
void capture_fp_settings(d1::task_group_context &) {}

// Arenas: explicit arenas share the workers of the process.
void initialize(d1::task_arena_base &a) {
  if (a.my_max_concurrency <= 0) {
    a.my_max_concurrency = sim::tbb_workers();
  }
  a.my_arena.store(reinterpret_cast<arena *>(0x10));
}
void terminate(d1::task_arena_base &) {}
bool attach(d1::task_arena_base &a) {
  a.my_max_concurrency = sim::tbb_workers();
  a.my_arena.store(reinterpret_cast<arena *>(0x10));
  return true;
}
void execute(d1::task_arena_base &, d1::delegate_base &d) {
  Worker &w = self();
  w.initialised = true;
  d();
}
void wait(d1::task_arena_base &) {
  Pool &p = pool();
  Worker &w = self();
  Item item;
  int original;
  while (pop_own(w, 0, item) || steal(p, w, 0, item, original)) {
    execute_chain(w, item, w.slot);
  }
}
int max_concurrency(const d1::task_arena_base *a) {
  if (a != nullptr && a->my_max_concurrency > 0) {
    return a->my_max_concurrency;
  }
  return sim::tbb_workers();
}
void isolate_within_arena(d1::delegate_base &d, std::intptr_t isolation) {
  Worker &w = self();
  const std::intptr_t prev = w.isolation;
  w.isolation = isolation != 0 ? isolation : ++g_isolation_counter;
  try {
    d();
  } catch (...) {
    w.isolation = prev;
    throw;
  }
  w.isolation = prev;
}
void enqueue(d1::task &t, d1::task_arena_base *) {
  static d1::task_group_context ctx(d1::task_group_context::isolated);
  pool().enqueued.push_back({&t, &ctx});
  wake_waiting(pool());
}
void enqueue(d1::task &t, d1::task_group_context &ctx, d1::task_arena_base *) {
  pool().enqueued.push_back({&t, &ctx});
  wake_waiting(pool());
}
void observe(d1::task_scheduler_observer &, bool) {}

// global_control
void create(d1::global_control &c) {
  if (sim::in_run()) {
    pool().controls[c.my_param].insert({c.my_value, &c});
    if (c.my_param == d1::global_control::max_allowed_parallelism) {
      wake_waiting(pool());
    }
  }
}
void destroy(d1::global_control &c) {
  if (sim::in_run()) {
    auto &m = pool().controls[c.my_param];
    for (auto it = m.begin(); it != m.end(); ++it) {
      if (it->second == &c) {
        m.erase(it);
        break;
      }
    }
  }
}
std::size_t global_control_active_value(int p) {
  if (p == d1::global_control::max_allowed_parallelism) {
    return active_limit(pool());
  }
  return p == d1::global_control::thread_stack_size ? (8u << 20) : 0;
}
void get(d1::task_scheduler_handle &) {}
bool finalize(d1::task_scheduler_handle &, std::intptr_t) {
  return true;
}

// info
unsigned numa_node_count() {
  return 1;
}
void fill_numa_indices(int *a) {
  a[0] = 0;
}
int numa_default_concurrency(int) {
  return sim::tbb_workers();
}
unsigned core_type_count(intptr_t) {
  return 1;
}
void fill_core_type_indices(int *a, intptr_t) {
  a[0] = 0;
}
int constraints_default_concurrency(const d1::constraints &, intptr_t) {
  return sim::tbb_workers();
}
int constraints_threads_per_core(const d1::constraints &, intptr_t) {
  return 1;
}

// allocation
void *cache_aligned_allocate(std::size_t n) {
  void *p = aligned_alloc(128, n);
  if (p == nullptr) {
    throw_exception(exception_id::bad_alloc);
  }
  return p;
}
void cache_aligned_deallocate(void *p) {
  free(p);
}
std::size_t cache_line_size() {
  return 64;
}
void *allocate_memory(std::size_t n) {
  void *p = malloc(n);
  if (p == nullptr) {
    throw_exception(exception_id::bad_alloc);
  }
  return p;
}
void deallocate_memory(void *p) {
  free(p);
}
bool is_tbbmalloc_used() {
  return true;
}
void *allocate(d1::small_object_pool *&pl, std::size_t n, const d1::execution_data &) {
  return allocate(pl, n);
}
void *allocate(d1::small_object_pool *&pl, std::size_t n) {
  static char dummy[16];
  pl = reinterpret_cast<d1::small_object_pool *>(dummy);
  // the scheduler's own bookkeeping is outside the allocation fault model
  const double saved = sim::faults.alloc_fail;
  sim::faults.alloc_fail = 0;
  void *p = aligned_alloc(64, n);
  sim::faults.alloc_fail = saved;
  return p;
}
void deallocate(d1::small_object_pool &, void *p, std::size_t, const d1::execution_data &) {
  free(p);
}
void deallocate(d1::small_object_pool &, void *p, std::size_t) {
  free(p);
}

// exceptions
const char *bad_last_alloc::what() const noexcept(true) {
  return "bad allocation in previous or concurrent attempt";
}
const char *user_abort::what() const noexcept(true) {
  return "User-initiated abort has terminated this operation";
}
const char *missing_wait::what() const noexcept(true) {
  return "wait() was not called on the structured_task_group";
}
void throw_exception(exception_id id) {
  switch (id) {
  case exception_id::bad_alloc:
    throw std::bad_alloc();
  case exception_id::bad_last_alloc:
    throw bad_last_alloc();
  case exception_id::nonpositive_step:
    throw std::invalid_argument("Step must be positive");
  case exception_id::out_of_range:
    throw std::out_of_range("Index out of requested size range");
  case exception_id::reservation_length_error:
    throw std::length_error("Attempt to exceed implementation defined length limits");
  case exception_id::user_abort:
    throw user_abort();
  case exception_id::missing_wait:
    throw missing_wait();
  default:
    throw std::runtime_error("tbb exception");
  }
}
void assertion_failure(const char *location, int line, const char *expr, const char *comment) {
  sim::fail(
      "tbb-assertion",
      sim::fmt("%s:%d: %s (%s)", location, line, expr, comment != nullptr ? comment : "")
  );
}

// waiting on addresses (tbb::mutex etc.)
void wait_on_address(void *, d1::delegate_base &pred, std::uintptr_t) {
  while (!pred()) {
    sim::yield();
  }
}
void notify_by_address(void *, std::uintptr_t) {}
void notify_by_address_one(void *) {}
void notify_by_address_all(void *) {}

// profiling hooks
void call_itt_notify(int, void *) {}
void create_itt_sync(void *, const char *, const char *) {}
void itt_set_sync_name(void *, const char *) {}

} // namespace tbb::detail::r1
extern "C" const char *TBB_runtime_version() {
  return "sim";
}
extern "C" int TBB_runtime_interface_version() {
  return TBB_INTERFACE_VERSION;
}
