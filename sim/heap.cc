// Deterministic heap. Allocations made during a run live at fixed addresses that depend only on the
// sequence of requests; fresh memory is filled with a per-run pattern, freed memory is poisoned and
// quarantined, and red zones around every block are verified: memory corruption is a violation, not
// a coin toss.
#include "core.h"

#include <dlfcn.h>
#include <cerrno>
#include <cstdlib>
#include <sys/mman.h>
#include <unistd.h>

extern "C" std::uintptr_t g_sim_heap_top; // first never allocated address of the run arena
std::uintptr_t g_sim_heap_top = sim::heap::kRun;

namespace {
using sim::heap::kRun;
using sim::heap::kRunSize;
constexpr std::uintptr_t kBoot = 0x300000000000ull; // before / outside runs
constexpr std::size_t kBootSize = 64ull << 30;
constexpr std::uint64_t kMagicLive = 0xA11C0DEDBEEF0001ull;
constexpr std::uint64_t kMagicFree = 0xF4EEF4EEF4EE0002ull;
constexpr std::uint64_t kTail = 0x7A117A117A117A11ull;
constexpr unsigned char kPoison = 0xDD;

struct Header {
  std::uint64_t size;   // user size
  std::uint64_t start;  // address of the raw block
  std::uint64_t raw;    // raw block size
  std::uint64_t magic;  // directly before the user data
};

std::uintptr_t g_boot_cur = 0;
std::uint8_t g_fill = 0;
bool g_mapped = false;

// free lists by power-of-two-ish class of raw size
constexpr int kClasses = 160;
struct FreeBlock {
  std::uintptr_t user;
};
struct Quarantine {
  std::uintptr_t *buf = nullptr;
  std::size_t head = 0, tail = 0, cap = 0;
};
Quarantine g_q[kClasses];
std::size_t g_live_bytes = 0;
std::uint64_t g_allocs = 0;

void map_regions() {
  if (g_mapped) {
    return;
  }
  g_mapped = true;
  auto map = [](std::uintptr_t at, std::size_t sz) {
    void *p = mmap(
        reinterpret_cast<void *>(at), sz, PROT_READ | PROT_WRITE,
        MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0
    );
    if (p == MAP_FAILED) {
      const char m[] = "simheap: cannot map arena\n";
      (void)!write(2, m, sizeof(m));
      _exit(4);
    }
  };
  map(kBoot, kBootSize);
  map(kRun, kRunSize);
  map(sim::heap::kShadow, kRunSize >> 3);
  g_boot_cur = kBoot;
  g_sim_heap_top = kRun;
}

int size_class(std::size_t raw, std::size_t &rounded) {
  if (raw <= 1024) {
    rounded = (raw + 63) & ~std::size_t(63);
    return static_cast<int>(rounded / 64);
  }
  // 4 classes per doubling
  const int lg = 63 - __builtin_clzll(raw);
  const std::size_t step = std::size_t(1) << (lg - 2);
  rounded = (raw + step - 1) / step * step;
  const int lg2 = 63 - __builtin_clzll(rounded);
  const int sub = static_cast<int>((rounded >> (lg2 - 2)) & 3);
  return 20 + (lg2 - 10) * 4 + sub;
}

bool in_run_arena(const void *p) {
  const auto a = reinterpret_cast<std::uintptr_t>(p);
  return a >= kRun && a < kRun + kRunSize;
}
bool in_boot_arena(const void *p) {
  const auto a = reinterpret_cast<std::uintptr_t>(p);
  return a >= kBoot && a < kBoot + kBootSize;
}

void corrupt(const char *what, const void *p, std::size_t size) {
  sim::heap::in_run = false;
  sim::fail("memory-corruption", sim::fmt("%s (block of %zu bytes at %p)", what, size, p));
}

void check_block(Header *h) {
  if (h->magic == kMagicLive) {
    std::uint64_t t;
    const auto user = reinterpret_cast<char *>(h + 1);
    std::memcpy(&t, user + h->size, 8);
    if (t != kTail) {
      corrupt("write past the end of a heap block", user, h->size);
    }
  } else if (h->magic == kMagicFree) {
    const auto *c = reinterpret_cast<unsigned char *>(h + 1);
    const std::size_t n = h->size < 4096 ? h->size : 4096;
    for (std::size_t i = 0; i < n; ++i) {
      if (c[i] != kPoison) {
        corrupt("write to freed heap memory", c, h->size);
      }
    }
  } else {
    corrupt("heap block header overwritten", h, 0);
  }
}

constexpr std::size_t kFillMax = 1u << 16;

// Shadow memory (one byte per 8 bytes of the run arena): 0 = accessible, 1..7 = only the first
// bytes are, 0xFF = not accessible. Instrumented accesses check it (tsan_rt.cc).
std::uint8_t *shadow(std::uintptr_t a) {
  return reinterpret_cast<std::uint8_t *>(sim::heap::kShadow + ((a - kRun) >> 3));
}
constexpr std::size_t kShadowMax = 1u << 20; // bytes of a freed block / slack that are marked
// a freed block: the marks of its content and of its slack
void shadow_reuse(std::uintptr_t start, std::size_t raw, std::uintptr_t user, std::size_t size) {
  const auto clear = [&](std::uintptr_t a, std::size_t n) {
    a &= ~std::uintptr_t(7);
    n += 16;
    if (n > start + raw - a) n = start + raw - a;
    std::memset(shadow(a), 0, n >> 3);
  };
  clear(start, user - start + (size < kShadowMax ? size : kShadowMax));
  if (user + size < start + raw) clear(user + size, kShadowMax);
}
void shadow_alloc(std::uintptr_t start, std::size_t raw, std::uintptr_t user, std::size_t size) {
  std::memset(shadow(start), 0xFF, (user - start) >> 3);
  std::uintptr_t end = user + (size & ~std::size_t(7));
  if (size & 7) {
    *shadow(end) = static_cast<std::uint8_t>(size & 7);
    end += 8;
  }
  std::size_t slack = start + raw - end;
  if (slack > kShadowMax) slack = kShadowMax;
  std::memset(shadow(end), 0xFF, slack >> 3);
}
void shadow_free(std::uintptr_t user, std::size_t size) {
  if (size > kShadowMax) size = kShadowMax;
  std::memset(shadow(user), 0xFF, (size + 7) >> 3);
}

void *run_alloc(std::size_t size, std::size_t align, bool zero) {
  if (align < 16) {
    align = 16;
  }
  const std::size_t raw_need = sizeof(Header) + (align > 16 ? align : 0) + size + 8;
  if (raw_need > kRunSize / 2 || raw_need < size) {
    return nullptr;
  }
  std::size_t raw;
  const int cls = size_class(raw_need, raw);
  std::uintptr_t start = 0;
  bool reused = false;
  Quarantine &q = g_q[cls];
  // keep freed blocks quarantined for a while before they are reused
  const std::size_t keep = raw <= 4096 ? 64 : (raw <= (1u << 20) ? 8 : 2);
  if (q.tail - q.head > keep) {
    const std::uintptr_t user = q.buf[q.head++ % q.cap];
    Header *old = reinterpret_cast<Header *>(user) - 1;
    check_block(old);
    start = old->start;
    raw = old->raw;
    reused = true;
    shadow_reuse(start, raw, user, old->size);
    old->magic = 0;
  } else {
    start = g_sim_heap_top;
    if (raw > kRun + kRunSize - start) {
      return nullptr;
    }
    g_sim_heap_top += raw;
  }
  std::uintptr_t user = start + sizeof(Header);
  user = (user + align - 1) & ~(align - 1);
  Header *h = reinterpret_cast<Header *>(user) - 1;
  h->size = size;
  h->start = start;
  h->raw = raw;
  h->magic = kMagicLive;
  std::memcpy(reinterpret_cast<char *>(user) + size, &kTail, 8);
  shadow_alloc(start, raw, user, size);
  if (zero) {
    if (reused) {
      std::memset(reinterpret_cast<void *>(user), 0, size);
    }
  } else {
    const std::size_t n = size < kFillMax ? size : kFillMax;
    if (reused || g_fill != 0) {
      std::memset(reinterpret_cast<void *>(user), g_fill, n);
    }
    if (reused && n < size && size < (1u << 26)) {
      std::memset(reinterpret_cast<char *>(user) + n, g_fill, size - n);
    }
  }
  g_live_bytes += size;
  ++g_allocs;
  return reinterpret_cast<void *>(user);
}

void run_free(void *p) {
  Header *h = static_cast<Header *>(p) - 1;
  if (h->magic == kMagicFree) {
    corrupt("double free", p, h->size);
  }
  if (h->magic != kMagicLive) {
    corrupt("free of an invalid pointer / overwritten block header", p, 0);
  }
  check_block(h);
  h->magic = kMagicFree;
  shadow_free(reinterpret_cast<std::uintptr_t>(p), h->size);
  g_live_bytes -= h->size;
  if (h->size <= (1u << 16)) {
    std::memset(p, kPoison, h->size);
  } else {
    std::memset(p, kPoison, 4096);
    if (h->size >= (1u << 22)) {
      // give the pages back; only the poisoned head stays
      std::uintptr_t lo = (reinterpret_cast<std::uintptr_t>(p) + 4096 + 4095) & ~4095ull;
      std::uintptr_t hi = (reinterpret_cast<std::uintptr_t>(p) + h->size) & ~4095ull;
      if (hi > lo) {
        madvise(reinterpret_cast<void *>(lo), hi - lo, MADV_DONTNEED);
      }
    }
  }
  std::size_t r;
  const int cls = size_class(h->raw, r);
  Quarantine &q = g_q[cls];
  if (q.tail - q.head >= q.cap) {
    const std::size_t ncap = q.cap == 0 ? 256 : q.cap * 2;
    auto *nb = static_cast<std::uintptr_t *>(mmap(
        nullptr, ncap * sizeof(std::uintptr_t), PROT_READ | PROT_WRITE,
        MAP_PRIVATE | MAP_ANONYMOUS, -1, 0
    ));
    std::size_t n = 0;
    for (std::size_t i = q.head; i != q.tail; ++i) {
      nb[n++] = q.buf[i % q.cap];
    }
    if (q.buf != nullptr) {
      munmap(q.buf, q.cap * sizeof(std::uintptr_t));
    }
    q.buf = nb;
    q.head = 0;
    q.tail = n;
    q.cap = ncap;
  }
  q.buf[q.tail++ % q.cap] = reinterpret_cast<std::uintptr_t>(p);
}

void *boot_alloc(std::size_t size, std::size_t align) {
  if (align < 16) {
    align = 16;
  }
  std::uintptr_t user = g_boot_cur + sizeof(Header);
  user = (user + align - 1) & ~(align - 1);
  if (size > kBoot + kBootSize - user - 4096) {
    return nullptr;
  }
  Header *h = reinterpret_cast<Header *>(user) - 1;
  h->size = size;
  h->start = 0;
  h->raw = 0;
  h->magic = kMagicLive;
  g_boot_cur = (user + size + 15) & ~15ull;
  return reinterpret_cast<void *>(user);
}

bool inject_failure(std::size_t size) {
  if (sim::faults.alloc_fail > 0 && size >= sim::faults.alloc_min && sim::in_run()) {
    if (sim::chance(sim::K_FAULT, sim::faults.alloc_fail)) {
      sim::count("fault:alloc_fail");
      return true;
    }
  }
  return false;
}

void *do_alloc(std::size_t size, std::size_t align, bool zero) {
  map_regions();
  if (sim::heap::in_run) {
    if (inject_failure(size)) {
      errno = ENOMEM;
      return nullptr;
    }
    void *p = run_alloc(size, align, zero);
    if (p == nullptr) {
      errno = ENOMEM;
    }
    return p;
  }
  void *p = boot_alloc(size, align);
  return p; // boot memory is never reused, hence zero
}
} // namespace

namespace sim::heap {
bool in_run = false;
} // namespace sim::heap
namespace sim {
void heap_fill(std::uint8_t fill) { g_fill = fill; }
} // namespace sim
namespace sim::heap {

// code position, relative to the module of the rank in distributed runs
static std::string code_at(const void *pc) {
  Dl_info info;
  if (dladdr(pc, &info) != 0 && info.dli_fname != nullptr && strncmp(info.dli_fname, "/proc/self/fd/", 14) == 0) {
    return sim::fmt("so+%#zx", reinterpret_cast<std::uintptr_t>(pc) - reinterpret_cast<std::uintptr_t>(info.dli_fbase));
  }
  return sim::fmt("%p", pc);
}

void bad_access(const void *p, std::size_t n, const void *pc, bool write) {
  const auto a = reinterpret_cast<std::uintptr_t>(p);
  const char *what = "outside of any heap block";
  if (a < g_sim_heap_top) {
    // look for the block in front of the address
    std::uintptr_t b = a & ~15ull;
    for (int i = 0; i < (1 << 16) && b > kRun + sizeof(Header); ++i, b -= 16) {
      const auto *h = reinterpret_cast<const Header *>(b) - 1;
      if (h->magic == kMagicFree) {
        what = a < b + h->size ? "in a freed heap block" : "past a heap block";
        break;
      }
      if (h->magic == kMagicLive) {
        what = "past the end of a heap block";
        break;
      }
    }
  }
  in_run = false;
  sim::fail("memory-access", sim::fmt("%s of %zu bytes %s (code at %s)", write ? "write" : "read", n, what, code_at(pc).c_str()));
}

// every byte of a range must be allocated (used for buffers that are handed to the simulated MPI)
void check_range(const void *p, std::size_t n, bool write, const void *pc) {
  const auto a = reinterpret_cast<std::uintptr_t>(p);
  if (n == 0) {
    return;
  }
  if (a < 4096) {
    sim::fail("memory-access", sim::fmt("null pointer passed for a buffer of %zu bytes (code at %s)", n, code_at(pc).c_str()));
  }
  if (a < kRun || a >= kRun + kRunSize) {
    return;
  }
  const bool in = a + n <= g_sim_heap_top;
  for (std::uintptr_t x = a & ~7ull; in && x < a + n; x += 8) {
    const std::uint8_t sh = *shadow(x);
    const std::uintptr_t last = (x + 8 < a + n ? x + 8 : a + n) - x;
    if (sh != 0 && last > (sh < 8 ? sh : 0)) {
      bad_access(reinterpret_cast<const void *>(x < a ? a : x), n, pc, write);
    }
  }
  if (!in) {
    bad_access(p, n, pc, write);
  }
}

void begin_run(std::uint8_t fill) {
  g_fill = fill;
  in_run = true;
}
void end_run() {
  in_run = false;
}
void check_all() {
  // Run blocks are contiguous, so walking needs the raw sizes; live blocks with large alignment do
  // not have their header at the start. Quarantined blocks are checked here, live ones when freed.
  for (auto &q : g_q) {
    for (std::size_t i = q.head; i != q.tail; ++i) {
      check_block(reinterpret_cast<Header *>(q.buf[i % q.cap]) - 1);
    }
  }
}
} // namespace sim::heap

extern "C" {
void *malloc(std::size_t n) {
  return do_alloc(n, 16, false);
}
void *calloc(std::size_t a, std::size_t b) {
  std::size_t n;
  if (__builtin_mul_overflow(a, b, &n)) {
    errno = ENOMEM;
    return nullptr;
  }
  return do_alloc(n, 16, true);
}
void free(void *p) {
  if (p == nullptr) {
    return;
  }
  if (in_run_arena(p)) {
    run_free(p);
  } else if (!in_boot_arena(p)) {
    if (sim::in_run()) {
      corrupt("free of a pointer that was never allocated", p, 0);
    }
  }
}
void *realloc(void *p, std::size_t n) {
  if (p == nullptr) {
    return malloc(n);
  }
  if (n == 0) {
    free(p);
    return nullptr;
  }
  Header *h = static_cast<Header *>(p) - 1;
  if (in_run_arena(p) && h->magic != kMagicLive) {
    corrupt("realloc of an invalid pointer", p, 0);
  }
  void *q = malloc(n);
  if (q == nullptr) {
    return nullptr;
  }
  std::memcpy(q, p, h->size < n ? h->size : n);
  free(p);
  return q;
}
int posix_memalign(void **out, std::size_t align, std::size_t n) {
  void *p = do_alloc(n, align, false);
  if (p == nullptr) {
    return ENOMEM;
  }
  *out = p;
  return 0;
}
void *aligned_alloc(std::size_t align, std::size_t n) {
  return do_alloc(n, align, false);
}
void *memalign(std::size_t align, std::size_t n) {
  return do_alloc(n, align, false);
}
void *valloc(std::size_t n) {
  return do_alloc(n, 4096, false);
}
std::size_t malloc_usable_size(void *p) {
  return p == nullptr ? 0 : (static_cast<Header *>(p) - 1)->size;
}

// tbbmalloc
void *scalable_malloc(std::size_t n) {
  return do_alloc(n, 16, false);
}
void scalable_free(void *p) {
  free(p);
}
void *scalable_realloc(void *p, std::size_t n) {
  return realloc(p, n);
}
void *scalable_calloc(std::size_t a, std::size_t b) {
  return calloc(a, b);
}
int scalable_posix_memalign(void **out, std::size_t align, std::size_t n) {
  return posix_memalign(out, align, n);
}
void *scalable_aligned_malloc(std::size_t n, std::size_t align) {
  return do_alloc(n, align, false);
}
void scalable_aligned_free(void *p) {
  free(p);
}
void *scalable_aligned_realloc(void *p, std::size_t n, std::size_t align) {
  void *q = do_alloc(n, align, false);
  if (p != nullptr && q != nullptr) {
    Header *h = static_cast<Header *>(p) - 1;
    std::memcpy(q, p, h->size < n ? h->size : n);
    free(p);
  }
  return q;
}
std::size_t scalable_msize(void *p) {
  return malloc_usable_size(p);
}
int scalable_allocation_mode(int, std::intptr_t) {
  return 0;
}
int scalable_allocation_command(int, void *) {
  return 0;
}
}
