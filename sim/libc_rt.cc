// Seams for the C/C++ runtime: thread identity, thread-local storage, mutexes, clocks, exit.
#include "core.h"

#include <cerrno>
#include <cstdlib>
#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
#include <sys/sysinfo.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <thread>
#include <time.h>
#include <unistd.h>

using namespace sim;

// ------------------------------------------------------------------------------------------------
// Thread-local storage (-femulated-tls): one instance per simulated thread.
struct emutls_control {
  std::size_t size;
  std::size_t align;
  union {
    std::uintptr_t index;
    void *address;
  } object;
  void *value;
};

namespace {
std::uintptr_t g_emutls_next = 1;
std::vector<void *> g_boot_tls;

void *tls_get(std::vector<void *> &v, emutls_control *c) {
  std::uintptr_t idx = c->object.index;
  if (__builtin_expect(idx == 0, 0)) {
    idx = g_emutls_next++;
    c->object.index = idx;
  }
  if (__builtin_expect(idx >= v.size(), 0)) {
    v.resize(idx + 16);
  }
  void *p = v[idx];
  if (__builtin_expect(p == nullptr, 0)) {
    p = nullptr;
    if (posix_memalign(&p, c->align < 16 ? 16 : c->align, c->size) != 0) {
      abort();
    }
    if (c->value != nullptr) {
      std::memcpy(p, c->value, c->size);
    } else {
      std::memset(p, 0, c->size);
    }
    v[idx] = p;
  }
  return p;
}
} // namespace

namespace sim {
void tls_new_fiber(Fiber &f) {
  f.tls = new std::vector<void *>();
  f.tls->resize(64);
}
} // namespace sim

extern "C" void *__emutls_get_address(void *control) {
  auto *c = static_cast<emutls_control *>(control);
  if (!g_active) {
    return tls_get(g_boot_tls, c);
  }
  return tls_get(*g_fibers[g_current].tls, c);
}

// destructors of thread_locals: threads of a run never exit before the run ends
extern "C" int __cxa_thread_atexit(void (*)(void *), void *, void *) {
  return 0;
}

// ------------------------------------------------------------------------------------------------
// Static initialisation guards
extern "C" int __cxa_guard_acquire(std::uint64_t *g) {
  auto *b = reinterpret_cast<volatile std::uint8_t *>(g);
  while (true) {
    if (b[0] != 0) {
      return 0;
    }
    if (b[1] == 0) {
      b[1] = static_cast<std::uint8_t>(1 + (g_active ? g_current : 0));
      return 1;
    }
    if (!g_active || b[1] == 1 + g_current) {
      abort(); // recursive initialisation
    }
    yield();
  }
}
extern "C" void __cxa_guard_release(std::uint64_t *g) {
  auto *b = reinterpret_cast<volatile std::uint8_t *>(g);
  b[1] = 0;
  b[0] = 1;
}
extern "C" void __cxa_guard_abort(std::uint64_t *g) {
  auto *b = reinterpret_cast<volatile std::uint8_t *>(g);
  b[1] = 0;
}

// ------------------------------------------------------------------------------------------------
// Thread identity
extern "C" pthread_t pthread_self() {
  return static_cast<pthread_t>(0x7000000 + (g_active ? g_current : 0) * 0x1000);
}
extern "C" int sched_yield() {
  yield();
  return 0;
}
extern "C" int sched_getcpu() {
  return g_active ? g_current : 0;
}
unsigned int std::thread::hardware_concurrency() noexcept {
  return static_cast<unsigned>(tbb_workers());
}
extern "C" int get_nprocs() {
  return tbb_workers();
}
extern "C" int get_nprocs_conf() {
  return tbb_workers();
}
extern "C" int sysinfo(struct sysinfo *i) {
  std::memset(i, 0, sizeof(*i));
  i->totalram = i->freeram = 16ull << 30;
  i->mem_unit = 1;
  i->procs = 1;
  return 0;
}

// ------------------------------------------------------------------------------------------------
// Mutexes: owner kept in the mutex itself, waiters spin through the simulated scheduler.
namespace {
std::uint64_t g_mutex_waiters[kMaxFibers];
}

extern "C" int pthread_mutex_lock(pthread_mutex_t *m) {
  if (!g_active) {
    return 0;
  }
  const int me = g_current + 1;
  if (m->__data.__lock != 0 && m->__data.__owner == me) {
    if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) {
      ++m->__data.__count;
      return 0;
    }
    if ((m->__data.__kind & 3) == PTHREAD_MUTEX_ERRORCHECK) {
      return EDEADLK;
    }
  }
  if ((g_sim_budget -= 6) <= 0) {
    sim_preempt_slow(__builtin_return_address(0));
  }
  while (m->__data.__lock != 0) {
    const int owner = m->__data.__owner - 1;
    if (owner == g_current) {
      fail("deadlock", "a thread locks a mutex it already holds");
    }
    g_mutex_waiters[owner] |= 1ull << g_current;
    block();
  }
  m->__data.__lock = 1;
  m->__data.__owner = me;
  m->__data.__count = 1;
  return 0;
}
extern "C" int pthread_mutex_trylock(pthread_mutex_t *m) {
  if (!g_active) {
    return 0;
  }
  if (m->__data.__lock != 0) {
    if (m->__data.__owner == g_current + 1 &&
        (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) {
      ++m->__data.__count;
      return 0;
    }
    return EBUSY;
  }
  m->__data.__lock = 1;
  m->__data.__owner = g_current + 1;
  m->__data.__count = 1;
  return 0;
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t *m) {
  if (!g_active) {
    return 0;
  }
  if (--m->__data.__count > 0 && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) {
    return 0;
  }
  const int owner = m->__data.__owner - 1;
  m->__data.__lock = 0;
  m->__data.__owner = 0;
  m->__data.__count = 0;
  if (owner >= 0 && owner < kMaxFibers) {
    // every waiter of this owner re-checks (it may wait for another mutex of the same owner)
    std::uint64_t w = g_mutex_waiters[owner];
    g_mutex_waiters[owner] = 0;
    for (; w != 0; w &= w - 1) {
      wake(__builtin_ctzll(w));
    }
  }
  if ((g_sim_budget -= 6) <= 0) {
    sim_preempt_slow(__builtin_return_address(0));
  }
  return 0;
}

// Reader/writer locks and condition variables are not used by the code base today; they are provided
// (as yielding loops) so that code which starts using them still runs under the simulator.
extern "C" int pthread_rwlock_wrlock(pthread_rwlock_t *l) {
  if (g_active) {
    while (l->__data.__cur_writer != 0 || l->__data.__readers != 0) {
      yield();
    }
    l->__data.__cur_writer = g_current + 1;
  }
  return 0;
}
extern "C" int pthread_rwlock_rdlock(pthread_rwlock_t *l) {
  if (g_active) {
    while (l->__data.__cur_writer != 0) {
      yield();
    }
    ++l->__data.__readers;
  }
  return 0;
}
extern "C" int pthread_rwlock_unlock(pthread_rwlock_t *l) {
  if (g_active) {
    if (l->__data.__cur_writer != 0) {
      l->__data.__cur_writer = 0;
    } else {
      --l->__data.__readers;
    }
    yield();
  }
  return 0;
}
extern "C" int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  if (g_active) {
    auto *seq = reinterpret_cast<volatile unsigned *>(c);
    const unsigned s = *seq;
    pthread_mutex_unlock(m);
    while (*seq == s) {
      yield();
    }
    pthread_mutex_lock(m);
  }
  return 0;
}
extern "C" int pthread_cond_signal(pthread_cond_t *c) {
  if (g_active) {
    auto *seq = reinterpret_cast<volatile unsigned *>(c);
    *seq = *seq + 1;
  }
  return 0;
}
extern "C" int pthread_cond_broadcast(pthread_cond_t *c) {
  return pthread_cond_signal(c);
}

// ------------------------------------------------------------------------------------------------
// Clocks
namespace {
std::int64_t g_clock_offset = 0;
constexpr std::int64_t kEpoch = 1700000000ll * 1000000000ll;

std::int64_t wall_ns() {
  if (faults.clock_jumps && chance(K_FAULT, 0.05)) {
    count("fault:clock_jump");
    // 1 us .. ~1 h, forwards or backwards
    const std::uint64_t r = choose(K_FAULT, 64);
    const std::int64_t mag = static_cast<std::int64_t>(1000ull << (r % 32));
    g_clock_offset += (r & 32) ? -mag : mag;
    count("fault.clock_jump");
    if (r & 32) {
      count("fault.clock_backward");
    }
  }
  advance_ns(25);
  return kEpoch + static_cast<std::int64_t>(now_ns()) + g_clock_offset;
}
} // namespace

extern "C" int clock_gettime(clockid_t id, struct timespec *ts) {
  if (!g_active) {
    return static_cast<int>(syscall(SYS_clock_gettime, id, ts));
  }
  std::int64_t t;
  if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) {
    t = wall_ns();
  } else {
    advance_ns(25);
    t = static_cast<std::int64_t>(now_ns()) + 1000000000;
  }
  ts->tv_sec = t / 1000000000;
  ts->tv_nsec = t % 1000000000;
  return 0;
}
extern "C" int gettimeofday(struct timeval *tv, void *) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
extern "C" time_t time(time_t *out) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (out != nullptr) {
    *out = ts.tv_sec;
  }
  return ts.tv_sec;
}
extern "C" int nanosleep(const struct timespec *req, struct timespec *) {
  if (g_active) {
    advance_ns(req->tv_sec * 1000000000ull + req->tv_nsec);
    yield();
  }
  return 0;
}
extern "C" int clock_nanosleep(clockid_t, int, const struct timespec *req, struct timespec *) {
  return nanosleep(req, nullptr);
}
extern "C" int usleep(useconds_t us) {
  if (g_active) {
    advance_ns(us * 1000ull);
    yield();
  }
  return 0;
}

// ------------------------------------------------------------------------------------------------
// exit() from inside a run
namespace sim {
void (*exit_hook)(int) = nullptr;
}
extern "C" void exit(int code) {
  if (g_active) {
    if (sim::exit_hook != nullptr) {
      sim::exit_hook(code);
    }
    fail("unexpected-exit", fmt("the code under test called exit(%d)", code));
  }
  // flush and leave
  fflush(nullptr);
  _exit(code);
}
extern "C" void quick_exit(int code) {
  exit(code);
}
