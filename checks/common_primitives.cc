// C11. Parallel primitives and metrics equal their sequential definitions under every schedule.
#include "sim.h"

#include <algorithm>
#include <cmath>
#include <functional>
#include <numeric>
#include <vector>

#include "shm_util.h"

#include "kaminpar-shm/metrics.h"

#include "kaminpar-common/parallel/aligned_prefix_sum.h"
#include "kaminpar-common/parallel/algorithm.h"
#include "kaminpar-common/parallel/atomic.h"
#include "kaminpar-common/parallel/loops.h"
#include "kaminpar-common/parallel/vector_ets.h"

using namespace kaminpar;

namespace {
template <typename T> std::vector<T> sequence(std::size_t n, long lo, long hi) {
  sim::NoPreempt np;
  std::vector<T> v(n);
  for (auto &x : v) x = static_cast<T>(static_cast<long>(sim::range(0, hi - lo)) + lo);
  return v;
}

template <typename T> void scans(std::size_t n, long lo, long hi) {
  const auto v = sequence<T>(n, lo, hi);
  std::vector<T> out(n, T(77));
  switch (sim::range(0, 5)) {
  case 0: {
    const bool in_place = sim::coin();
    std::vector<T> w = v;
    if (in_place) {
      parallel::prefix_sum(w.begin(), w.end(), w.begin());
    } else {
      parallel::prefix_sum(v.begin(), v.end(), out.begin());
    }
    sim::NoPreempt np;
    T sum = 0;
    for (std::size_t i = 0; i < n; ++i) {
      sum += v[i];
      const T got = in_place ? w[i] : out[i];
      SIM_CHECK(got == sum, "prefix-sum", sim::fmt("prefix sum at %zu is %ld, expected %ld", i, (long)got, (long)sum));
    }
    break;
  }
  case 1: {
    const T init = static_cast<T>(sim::range(0, 50));
    const T a = parallel::accumulate(v, init);
    const T b = parallel::accumulate(v.begin(), v.end(), init);
    const T e = std::accumulate(v.begin(), v.end(), init);
    SIM_CHECK(a == e && b == e, "accumulate", sim::fmt("accumulate %ld/%ld, expected %ld", (long)a, (long)b, (long)e));
    break;
  }
  case 2: {
    const T init = static_cast<T>(sim::range(0, 50));
    const T a = parallel::accumulate(v.begin(), v.end(), init, [](const T &x) { return static_cast<T>(x * 3); });
    T e = init;
    for (const T &x : v) e += static_cast<T>(x * 3);
    SIM_CHECK(a == e, "accumulate-op", sim::fmt("accumulate %ld, expected %ld", (long)a, (long)e));
    break;
  }
  case 3: {
    if (n == 0) return;
    const T a = parallel::max_element(v);
    const T b = parallel::max_element(v.begin(), v.end());
    const T e = *std::max_element(v.begin(), v.end());
    SIM_CHECK(a == e && b == e, "max-element", sim::fmt("max %ld/%ld, expected %ld", (long)a, (long)b, (long)e));
    break;
  }
  case 4: {
    if (n < 2) return;
    auto w = v;
    std::sort(w.begin(), w.end());
    if (std::is_signed_v<T> && sim::coin()) w = v;
    T e = w[1] - w[0];
    for (std::size_t i = 1; i + 1 < n; ++i) e = std::max<T>(e, w[i + 1] - w[i]);
    const T a = parallel::max_difference(w);
    const T b = parallel::max_difference(w.begin(), w.end());
    SIM_CHECK(a == e && b == e, "max-difference", sim::fmt("max difference %ld/%ld, expected %ld", (long)a, (long)b, (long)e));
    break;
  }
  default: { // aligned prefix sum: disjoint, aligned, ordered ranges large enough for the values
    std::vector<std::size_t> val(n), pos(n + 1, 0);
    for (std::size_t i = 0; i < n; ++i) {
      sim::NoPreempt np;
      // element widths as in the gain caches: sizes are multiples of the alignment
      const std::size_t al = std::size_t(1) << sim::range(0, 3);
      val[i] = al * sim::range(0, 9) * 16 + al;
    }
    if (n == 0) return;
    auto alignment = [&](std::size_t i) { return val[i] % 16; };
    const std::size_t total = parallel::aligned_prefix_sum(pos.begin(), pos.begin() + n, [&](const std::size_t i) {
      return std::make_pair<std::size_t, std::size_t>(alignment(i), val[i] / 16 * 8 + alignment(i));
    });
    sim::NoPreempt np;
    std::size_t end = 0;
    for (std::size_t i = 0; i < n; ++i) {
      SIM_CHECK(pos[i] >= end, "aligned-overlap", sim::fmt("range %zu starts at %zu before %zu", i, pos[i], end));
      SIM_CHECK(pos[i] % alignment(i) == 0, "aligned-alignment", sim::fmt("range %zu starts at %zu", i, pos[i]));
      end = pos[i] + val[i] / 16 * 8 + alignment(i);
    }
    SIM_CHECK(n == 1 || total >= end, "aligned-total", sim::fmt("total %zu, ranges end at %zu (n=%zu)", total, end, n));
    SIM_CHECK(total <= end + 8 * (n + 64), "aligned-total", sim::fmt("total %zu, ranges end at %zu", total, end));
    break;
  }
  }
}

void loops(std::size_t n) {
  if (sim::coin()) {
    std::vector<std::vector<int>> buffers(sim::range(0, 8));
    std::size_t id = 0;
    for (auto &b : buffers) {
      sim::NoPreempt np;
      if (sim::coin(0.7)) b.resize(sim::range(0, n));
      for (auto &x : b) x = static_cast<int>(id++);
    }
    std::vector<int> seen(id, 0), buf(id, -1);
    const bool with_id = sim::coin();
    if (with_id) {
      parallel::chunked_for(buffers, [&](int &x, int b) {
        __atomic_fetch_add(&seen[x], 1, __ATOMIC_RELAXED);
        buf[x] = b;
      });
    } else {
      parallel::chunked_for(buffers, [&](int &x) { __atomic_fetch_add(&seen[x], 1, __ATOMIC_RELAXED); });
    }
    sim::NoPreempt np;
    for (std::size_t b = 0; b < buffers.size(); ++b)
      for (int x : buffers[b]) {
        SIM_CHECK(seen[x] == 1, "chunked-for", sim::fmt("element %d visited %d times", x, seen[x]));
        SIM_CHECK(!with_id || buf[x] == static_cast<int>(b), "chunked-for-id",
                  sim::fmt("element %d reported in chunk %d, is in %zu", x, buf[x], b));
      }
  } else {
    const std::size_t from = sim::range(0, 5);
    std::vector<int> seen(n + from, 0), cpus(64, 0), cpu_of(n + from, -1);
    const int p = parallel::deterministic_for<std::size_t>(from, from + n, [&](std::size_t a, std::size_t b, int cpu) {
      __atomic_fetch_add(&cpus[cpu], 1, __ATOMIC_RELAXED);
      for (std::size_t i = a; i < b; ++i) {
        __atomic_fetch_add(&seen[i], 1, __ATOMIC_RELAXED);
        cpu_of[i] = cpu;
      }
    });
    sim::NoPreempt np;
    SIM_CHECK(p <= sim::tbb_workers(), "deterministic-for-p", sim::fmt("%d chunks with %d workers", p, sim::tbb_workers()));
    for (std::size_t i = 0; i < n + from; ++i)
      SIM_CHECK(seen[i] == (i >= from), "deterministic-for", sim::fmt("index %zu visited %d times", i, seen[i]));
    for (std::size_t i = from + 1; i < n + from; ++i)
      SIM_CHECK(cpu_of[i - 1] <= cpu_of[i], "deterministic-for-order", "chunks are not contiguous");
    for (int c = 0; c < p; ++c) SIM_CHECK(cpus[c] == 1, "deterministic-for-cpu", sim::fmt("cpu %d called %d times", c, cpus[c]));
  }
}

void atomics(std::size_t n) {
  parallel::Atomic<long> a = 1000;
  std::vector<std::uint8_t> op(n);
  std::vector<long> arg(n), ret(n);
  const int mode = sim::range(0, 2);
  for (std::size_t i = 0; i < n; ++i) {
    sim::NoPreempt np;
    op[i] = sim::range(0, 7);
    if (mode == 1) op[i] = 2; // only post-increments
    if (mode == 2) op[i] = 3; // only post-decrements
    arg[i] = sim::range(0, 20);
  }
  tbb::parallel_for<std::size_t>(0, n, [&](std::size_t i) {
    switch (op[i]) {
    case 0: ret[i] = ++a; break;
    case 1: ret[i] = --a; break;
    case 2: ret[i] = a++; break;
    case 3: ret[i] = a--; break;
    case 4: ret[i] = (a += arg[i]); break;
    case 5: ret[i] = (a -= arg[i]); break;
    case 6: ret[i] = a.fetch_add(arg[i]); break;
    default: {
      long old = a.load();
      while (!a.compare_exchange_weak(old, old + arg[i])) {}
      ret[i] = old;
      break;
    }
    }
  });
  sim::NoPreempt np;
  long expected = 1000;
  for (std::size_t i = 0; i < n; ++i) {
    switch (op[i]) {
    case 0: case 2: ++expected; break;
    case 1: case 3: --expected; break;
    case 5: expected -= arg[i]; break;
    default: expected += arg[i]; break;
    }
  }
  SIM_CHECK(a == expected, "atomic", sim::fmt("counter is %ld, expected %ld (mode %d)", (long)a, expected, mode));
  if (mode != 0) {
    std::sort(ret.begin(), ret.end());
    for (std::size_t i = 0; i < n; ++i) {
      const long e = mode == 1 ? 1000 + static_cast<long>(i) : 1000 - static_cast<long>(n) + 1 + static_cast<long>(i);
      SIM_CHECK(ret[i] == e, "atomic-return", sim::fmt("%zu-th smallest returned value %ld, expected %ld", i, ret[i], e));
    }
  }
}

void ets(std::size_t n) {
  const std::size_t size = sim::range(1, 8);
  parallel::vector_ets<long> v(size);
  std::vector<std::size_t> idx(n);
  for (auto &x : idx) x = sim::range(0, size - 1);
  tbb::parallel_for<std::size_t>(0, n, [&](std::size_t i) { v.local()[idx[i]] += static_cast<long>(i); });
  if (n == 0) return;
  auto c = v.combine(std::plus{});
  std::vector<long> e(size, 0);
  for (std::size_t i = 0; i < n; ++i) e[idx[i]] += static_cast<long>(i);
  for (std::size_t i = 0; i < size; ++i)
    SIM_CHECK(c[i] == e[i], "vector-ets", sim::fmt("slot %zu is %ld, expected %ld", i, c[i], e[i]));
}

void metrics() {
  using namespace kaminpar::shm;
  gen::Opts o;
  o.max_n = 60;
  const gen::G g = gen::random_graph(o);
  const BlockID k = sim::coin(0.1) ? 65536 + sim::range(0, 3) : sim::range(1, 9);
  const auto part = gen::random_partition(g, std::min<BlockID>(k, 64));
  const Graph graph = su::graph_of(g);
  // the parallel constructor computes the block weights
  auto arr = su::array_of<BlockID>(part);
  const PartitionedGraph pg(graph, k, std::move(arr));
  const auto bw = g.block_weights(part, k);
  for (BlockID b = 0; b < k; ++b)
    SIM_CHECK(pg.block_weight(b) == bw[b], "block-weight", sim::fmt("weight of block %u is %ld, expected %ld", b, (long)pg.block_weight(b), (long)bw[b]));
  const auto cut = g.cut(part);
  SIM_CHECK(shm::metrics::edge_cut(pg) == cut, "edge-cut", sim::fmt("cut %ld, expected %ld", (long)shm::metrics::edge_cut(pg), (long)cut));
  SIM_CHECK(shm::metrics::edge_cut_seq(pg) == cut, "edge-cut-seq", "sequential cut differs");
  if (g.n > 0) {
    const double perfect = std::ceil(1.0 * g.total_vw() / k);
    double imb = 0;
    for (auto w : bw) imb = std::max(imb, w / perfect - 1.0);
    SIM_CHECK(std::abs(shm::metrics::imbalance(pg) - imb) < 1e-9, "imbalance", sim::fmt("imbalance %f, expected %f", shm::metrics::imbalance(pg), imb));
    PartitionContext ctx;
    const gen::i64 base = g.total_vw() / k;
    std::vector<BlockWeight> mbw(k);
    gen::i64 overload = 0;
    bool balanced = true;
    for (BlockID b = 0; b < k; ++b) {
      sim::NoPreempt np;
      mbw[b] = base + (b < 64 ? static_cast<BlockWeight>(sim::range(0, 10)) : 1);
      overload += std::max<gen::i64>(0, bw[b] - mbw[b]);
      balanced &= bw[b] <= mbw[b];
    }
    ctx.setup(graph, std::move(mbw));
    SIM_CHECK(shm::metrics::total_overload(pg, ctx) == overload, "overload", "total overload differs");
    SIM_CHECK(shm::metrics::is_balanced(pg, ctx) == balanced, "balanced", "balance verdict differs");
  }
}

void run() {
  const int P = static_cast<int>(sim::range(1, 7));
  sim::tbb_configure(P);
  const std::size_t n = sim::coin(0.2) ? sim::range(0, 4) : sim::range(0, 250);
  const int what = static_cast<int>(sim::range(0, 6));
  sim::note(sim::fmt("P=%d n=%zu primitive=%d", P, n, what));
  switch (what) {
  case 0: scans<long>(n, -300, 700); break;
  case 1: scans<std::uint32_t>(n, 0, 1000); break;
  case 2: loops(std::min<std::size_t>(n, 60)); break;
  case 3: atomics(n); break;
  case 4: ets(n); break;
  case 5: scans<std::uint64_t>(n, 0, 1 << 30); break;
  default: metrics(); break;
  }
  sim::case_key(n * 16 + what);
  if (P > 1 && n > 4) sim::mark_nontrivial();
}
} // namespace

sim::Check sim::the_check = {"common_primitives", run, 50'000'000, nullptr};
