// C12. Shared containers behave like their sequential model under every interleaving, and resetting
// them leaves them indistinguishable from new ones.
#include "sim.h"

#include <algorithm>
#include <array>
#include <atomic>
#include <cstring>
#include <map>
#include <mutex>
#include <set>
#include <vector>

#include <tbb/concurrent_vector.h>
#include <tbb/parallel_for.h>
#include <tbb/task_arena.h>

#include "shm_util.h"

#include "kaminpar-common/datastructures/compact_hash_map.h"
#include "kaminpar-common/datastructures/compact_static_array.h"
#include "kaminpar-common/datastructures/concurrent_circular_vector.h"
#include "kaminpar-common/datastructures/concurrent_fast_reset_array.h"
#include "kaminpar-common/datastructures/fast_reset_array.h"
#include "kaminpar-common/datastructures/marker.h"
#include "kaminpar-common/datastructures/noinit_vector.h"
#include "kaminpar-common/datastructures/scalable_vector.h"
#include "kaminpar-common/datastructures/static_array.h"
#include "kaminpar-common/datastructures/ts_navigable_linked_list.h"
#include "kaminpar-common/parallel/atomic.h"
#include "kaminpar-common/parallel/vector_ets.h"

using namespace kaminpar;

namespace {
using u64 = std::uint64_t;

// Runs `tasks` as simulated parallel tasks (each its own task).
template <typename F> void in_parallel(std::size_t tasks, F &&f) {
  tbb::parallel_for<std::size_t>(0, tasks, [&](const std::size_t t) { f(t); });
}

// ---------------------------------------------------------------- circular commit buffer
template <typename Vec, typename Value> void circular(int P) {
  const std::size_t extra = sim::range(0, 2);
  Vec vec(static_cast<std::size_t>(P) + extra);
  const std::size_t packets = sim::range(1, 40);
  std::vector<Value> delta(packets), prefix(packets, std::numeric_limits<Value>::max());
  std::vector<int> seen(packets, 0);
  {
    sim::NoPreempt np;
    for (auto &d : delta) d = sim::range(0, 6) == 0 ? 0 : sim::range(1, 1000);
  }
  std::size_t commits = 0, beyond = 0;
  const std::size_t tasks = sim::coin(0.8) ? P : sim::range(1, P);
  in_parallel(tasks, [&](std::size_t) {
    while (true) {
      // as its users do it: an entry is always committed
      const std::size_t entry = vec.next();
      const Value d = entry < packets ? delta[entry] : 0;
      if (sim::chance(sim::K_WORK, 0.3)) sim::yield();
      const Value before = vec.fetch_and_update(entry, d);
      if (entry >= packets) {
        sim::NoPreempt np;
        ++beyond;
        return;
      }
      sim::NoPreempt np;
      SIM_CHECK(seen[entry]++ == 0, "circular-entry", sim::fmt("entry %zu was handed out twice", entry));
      prefix[entry] = before;
      ++commits;
    }
  });
  sim::NoPreempt np;
  SIM_CHECK(commits == packets, "circular-lost", sim::fmt("%zu of %zu packets were committed", commits, packets));
  Value sum = 0;
  for (std::size_t i = 0; i < packets; ++i) {
    SIM_CHECK(prefix[i] == sum, "circular-offset",
              sim::fmt("packet %zu of %zu starts at %llu, the packets before it end at %llu (P=%d)", i, packets,
                       (unsigned long long)prefix[i], (unsigned long long)sum, P));
    sum += delta[i];
  }
}

// ---------------------------------------------------------------- navigable linked list
template <template <typename> typename Container, typename Element> void navigable(bool large) {
  using List = NavigableLinkedList<u64, Element, Container>;
  List list;
  const std::size_t keys = large ? sim::range(1, 3) : sim::range(0, 60);
  std::vector<std::size_t> len(keys);
  {
    sim::NoPreempt np;
    for (auto &l : len) l = large ? sim::range(20000, 70000) : sim::range(0, 12);
  }
  // what is stored where must not be assumed: every marker owns `len[key]` elements from its position on
  auto element = [&](u64 key, u64 i) { return static_cast<Element>(key * 1000003u + i * 7u + 1u); };
  in_parallel(keys, [&](std::size_t key) {
    auto &local = list.local();
    local.mark(key);
    for (std::size_t i = 0; i < len[key]; ++i) {
      const Element e = element(key, i);
      if (i % 3 == 0) {
        local.push_back(e);
      } else if (i % 3 == 1) {
        local.push_back(Element(e));
      } else {
        local.emplace_back(e);
      }
    }
  });
  const bool prefilled = sim::coin(0.3);
  using Marker = NavigationMarker<u64, Element, Container>;
  auto markers = ts_navigable_list::combine<u64, Element, Container, NoinitVector>(
      list, prefilled ? NoinitVector<Marker>(keys) : NoinitVector<Marker>());
  sim::NoPreempt np;
  SIM_CHECK(markers.size() == keys, "list-markers", sim::fmt("%zu markers for %zu keys", (std::size_t)markers.size(), keys));
  std::vector<int> seen(keys, 0);
  std::size_t total = 0;
  for (const auto &m : markers) {
    SIM_CHECK(m.key < keys && seen[m.key]++ == 0, "list-markers", sim::fmt("key %llu is marked twice or unknown", (unsigned long long)m.key));
    for (std::size_t i = 0; i < len[m.key]; ++i) {
      SIM_CHECK(std::as_const(*m.local_list).get(m.position + i) == element(m.key, i), "list-element",
                sim::fmt("element %zu of key %llu", i, (unsigned long long)m.key));
    }
    total += len[m.key];
  }
  std::size_t positions = 0;
  for (const auto &local : list) positions += local.markers().empty() ? 0 : 1;
  SIM_CHECK(keys == 0 || positions > 0, "list-markers", "no local list has a marker");
}

template <typename T> using StdVector = std::vector<T>;

// ---------------------------------------------------------------- reset arrays
template <typename Value> void concurrent_reset_array(int P) {
  const bool resized = sim::coin();
  std::size_t cap = sim::range(1, 50);
  ConcurrentFastResetArray<Value> arr(resized ? 0 : cap);
  if (resized) arr.resize(cap);
  for (int round = 0, rounds = sim::range(1, 4); round < rounds; ++round) {
    SIM_CHECK(arr.capacity() == cap, "reset-capacity", "capacity");
    const std::size_t tasks = sim::range(0, 40);
    std::vector<std::size_t> pos(tasks);
    std::vector<Value> add(tasks), expected(cap, 0);
    {
      sim::NoPreempt np;
      for (std::size_t t = 0; t < tasks; ++t) {
        pos[t] = sim::range(0, cap - 1);
        add[t] = sim::range(1, 100);
        expected[pos[t]] += add[t];
      }
    }
    in_parallel(tasks, [&](std::size_t t) {
      // the user marks an entry when it turns it from unused to used
      const Value before = __atomic_fetch_add(&arr[pos[t]], add[t], __ATOMIC_RELAXED);
      if (before == 0) arr.local_used_entries().push_back(pos[t]);
    });
    {
      sim::NoPreempt np;
      for (std::size_t i = 0; i < cap; ++i) SIM_CHECK(arr[i] == expected[i], "reset-value", sim::fmt("entry %zu", i));
    }
    std::vector<Value> got(cap, 0);
    std::vector<int> times(cap, 0);
    arr.iterate_and_reset([&](const auto, auto &&entries) {
      for (const auto &[p, v] : entries) {
        sim::NoPreempt np;
        SIM_CHECK(p < cap, "reset-entry", "position out of range");
        got[p] = v;
        ++times[p];
      }
    });
    sim::NoPreempt np;
    for (std::size_t i = 0; i < cap; ++i) {
      SIM_CHECK(times[i] == (expected[i] != 0), "reset-enumeration", sim::fmt("entry %zu was enumerated %d times", i, times[i]));
      SIM_CHECK(got[i] == expected[i], "reset-enumeration", sim::fmt("entry %zu was enumerated with a wrong value", i));
      SIM_CHECK(arr[i] == 0, "reset-clear", sim::fmt("entry %zu survives the reset", i));
    }
    if (sim::coin(0.4)) {
      if (sim::coin()) arr.free();
      cap = sim::range(1, 80);
      arr.resize(cap);
      for (std::size_t i = 0; i < cap; ++i) SIM_CHECK(arr[i] == 0, "reset-clear", sim::fmt("entry %zu is not empty after resizing", i));
    }
  }
  (void)P;
}

void local_reset() {
  // thread-local scratch structures that are reset between uses
  FastResetArray<u64> arr;
  std::size_t cap = sim::range(1, 40);
  arr.resize(cap);
  Marker<1, std::uint8_t> m1(cap);
  Marker<2, std::uint8_t> m2;
  m2.resize(cap);
  for (int round = 0, rounds = sim::range(1, 300); round < rounds; ++round) {
    std::map<std::size_t, u64> model;
    std::array<std::set<std::size_t>, 3> marked;
    for (int i = 0, n = sim::range(0, 8); i < n; ++i) {
      const std::size_t p = sim::range(0, cap - 1);
      const u64 v = sim::range(1, 9);
      if (sim::coin()) {
        arr[p] += v;
        model[p] += v;
      } else {
        arr.set(p, v);
        model[p] = v;
      }
      const int which = sim::range(0, 2);
      if (which == 0) m1.set(p);
      if (which > 0) m2.set(p, which - 1);
      marked[which].insert(p);
    }
    std::map<std::size_t, u64> got;
    std::size_t entries = 0;
    for (const auto &[p, v] : arr.entries()) got[p] = v, ++entries;
    SIM_CHECK(got == model && entries == model.size(), "local-reset", "entries differ from the model");
    for (std::size_t i = 0; i < cap; ++i) {
      const auto it = model.find(i);
      SIM_CHECK(arr.get(i) == (it == model.end() ? 0 : it->second), "local-reset", "value differs from the model");
      SIM_CHECK(m1.get(i) == (marked[0].count(i) > 0), "marker", sim::fmt("marker of %zu in round %d", i, round));
      SIM_CHECK(m2.get(i, 0) == (marked[1].count(i) > 0) && m2.get(i, 1) == (marked[2].count(i) > 0), "marker",
                sim::fmt("marker of %zu in round %d", i, round));
    }
    arr.clear();
    m1.reset();
    m2.reset();
    for (std::size_t i = 0; i < cap; ++i) {
      SIM_CHECK(arr.get(i) == 0, "local-reset", "value survives the reset");
      SIM_CHECK(!m1.get(i) && !m2.get(i, 0) && !m2.get(i, 1), "marker", sim::fmt("marker of %zu survives reset %d", i, round));
    }
    SIM_CHECK(arr.empty(), "local-reset", "not empty after the reset");
  }
}

// ---------------------------------------------------------------- arrays
template <typename T> void static_arrays() {
  std::vector<T> v(sim::range(0, 90));
  for (auto &x : v) x = static_cast<T>(sim::range(0, 100000));
  StaticArray<T> a(v.begin(), v.end());
  auto same = [&](const StaticArray<T> &x, const std::vector<T> &y) {
    sim::NoPreempt np;
    return x.size() == y.size() && std::equal(y.begin(), y.end(), x.begin()) &&
           static_cast<std::size_t>(std::distance(x.begin(), x.end())) == y.size();
  };
  SIM_CHECK(same(a, v), "array-copy", "array differs from the range it was created from");
  {
    StaticArray<T> b = static_array::create(v);
    SIM_CHECK(same(b, v) && a == b, "array-equal", "equal arrays compare unequal");
    if (!v.empty()) {
      const std::size_t p = sim::range(0, v.size() - 1);
      b[p] = static_cast<T>(b[p] + 1);
      SIM_CHECK(!(a == b), "array-equal", sim::fmt("arrays of size %zu that differ at %zu compare equal", v.size(), p));
    }
  }
  for (int op = 0, ops = sim::range(1, 6); op < ops; ++op) {
    switch (sim::range(0, 5)) {
    case 0: { // resize with a value
      const std::size_t n = sim::range(0, 120);
      const T value = static_cast<T>(sim::range(0, 5));
      if (sim::coin()) {
        a.resize(n, value);
      } else {
        a.resize(n, value, static_array::seq);
      }
      v.assign(n, value);
      break;
    }
    case 1: { // without initialization, filled in parallel
      const std::size_t n = sim::range(0, 120);
      a.resize(n, static_array::noinit);
      tbb::parallel_for<std::size_t>(0, n, [&](std::size_t i) { a[i] = static_cast<T>(i * 3 + op); });
      v.resize(n);
      for (std::size_t i = 0; i < n; ++i) v[i] = static_cast<T>(i * 3 + op);
      break;
    }
    case 2: { // hide the end for a while
      const std::size_t n = sim::range(0, v.size());
      a.restrict(n);
      SIM_CHECK(same(a, std::vector<T>(v.begin(), v.begin() + n)), "array-restrict", "restricted array");
      a.unrestrict();
      break;
    }
    case 3: {
      StaticArray<T> b = std::move(a);
      SIM_CHECK(same(b, v), "array-move", "moved array");
      a = std::move(b);
      break;
    }
    case 4: {
      const T value = static_cast<T>(sim::range(0, 100));
      const std::size_t n = sim::range(0, v.size());
      a.assign(n, value, sim::coin());
      std::fill_n(v.begin(), n, value);
      break;
    }
    default:
      a.free();
      v.clear();
      SIM_CHECK(a.empty(), "array-free", "not empty");
      break;
    }
    SIM_CHECK(same(a, v), "array-content", sim::fmt("content differs from the model (size %zu)", v.size()));
  }
}

template <typename Int> void compact_array() {
  const std::size_t width = sim::range(1, sizeof(Int));
  const std::size_t n = sim::range(0, 70);
  std::vector<Int> v(n);
  const Int max = width == sizeof(Int) ? std::numeric_limits<Int>::max() : (static_cast<Int>(1) << (8 * width)) - 1;
  for (auto &x : v) x = sim::coin(0.2) ? max : static_cast<Int>(sim::choose(sim::K_WORK, ~0ull)) & max;
  CompactStaticArray<Int> a(width, n);
  // neighbouring values are written and read back concurrently
  tbb::parallel_for<std::size_t>(0, n, [&](std::size_t i) {
    if (v[i] & 1) a.write(i, static_cast<Int>(~v[i]) & max);
    a.write(i, v[i]);
    SIM_CHECK(a[i] == v[i], "compact-array", sim::fmt("entry %zu reads differently after writing it", i));
  });
  sim::NoPreempt np;
  SIM_CHECK(a.size() == n && a.empty() == (n == 0), "compact-array", "size");
  for (std::size_t i = 0; i < n; ++i) SIM_CHECK(a[i] == v[i], "compact-array", sim::fmt("entry %zu was lost", i));
  std::size_t i = 0;
  for (auto it = a.begin(); it != a.end(); ++it, ++i) SIM_CHECK(i < n && *it == v[i], "compact-array", sim::fmt("iteration at %zu", i));
  SIM_CHECK(i == n, "compact-array", "iteration ends early");
  const std::size_t r = sim::range(0, n);
  a.restrict(r);
  SIM_CHECK(a.size() == r, "compact-array", "restricted size");
  i = 0;
  for (auto it = a.begin(); it != a.end(); ++it, ++i) SIM_CHECK(i < r && *it == v[i], "compact-array", "restricted iteration");
  SIM_CHECK(i == r, "compact-array", "restricted iteration ends early");
  a.unrestrict();
  SIM_CHECK(a.size() == n, "compact-array", "unrestricted size");
}

// ---------------------------------------------------------------- per-thread vectors
void ets(int P) {
  const std::size_t n = sim::range(0, 12), tasks = sim::range(1, 60);
  std::vector<std::pair<std::size_t, u64>> adds(tasks);
  std::vector<u64> expected(n, 0);
  {
    sim::NoPreempt np;
    for (auto &[p, v] : adds) {
      p = n == 0 ? 0 : sim::range(0, n - 1);
      v = sim::range(1, 9);
      if (n > 0) expected[p] += v;
    }
  }
  parallel::vector_ets<u64> e(n);
  tbb::parallel_for(tbb::blocked_range<std::size_t>(0, tasks), [&](const auto &r) {
    auto &local = e.local();
    if (n == 0) return;
    for (std::size_t t = r.begin(); t != r.end(); ++t) local[adds[t].first] += adds[t].second;
  });
  const auto sum = e.combine(std::plus<u64>{});
  sim::NoPreempt np;
  SIM_CHECK(sum.size() == n, "ets-size", "size of the combined vector");
  for (std::size_t i = 0; i < n; ++i) SIM_CHECK(sum[i] == expected[i], "ets-sum", sim::fmt("sum of entry %zu", i));
  (void)P;
}

// ---------------------------------------------------------------- compact hash map
template <typename Int, bool full> void hash_map(int P) {
  const int lg = sim::range(full ? 0 : 1, 5);
  const std::size_t size = std::size_t(1) << lg;
  std::vector<Int> data(size, 0);
  const Int max_key = sim::range(size, 100);
  const int key_bits = std::max(1, CompactHashMap<Int, full>::compute_key_bits(max_key));
  // keys are below max_key as block ids are; at most `size` (or size - 1) of them are present
  const std::size_t max_keys = std::min<std::size_t>(full ? size : size - 1, max_key);
  std::vector<Int> keys;
  while (keys.size() < max_keys) {
    const Int key = sim::coin(0.5) ? static_cast<Int>((sim::range(0, max_key) / size * size + (max_key & (size - 1))) % max_key)
                                   : static_cast<Int>(sim::range(0, max_key - 1));
    if (std::find(keys.begin(), keys.end(), key) == keys.end()) {
      keys.push_back(key);
    } else {
      for (Int q = 0; q < max_key; ++q) {
        if (std::find(keys.begin(), keys.end(), q) == keys.end()) {
          keys.push_back(q);
          break;
        }
      }
    }
  }
  const Int max_value = (sizeof(Int) * 8 - key_bits >= 16) ? 50000 : (Int(1) << (sizeof(Int) * 8 - key_bits)) - 1;
  std::vector<Int> model(max_key, 0);
  CompactHashMap<Int, full> map(data.data(), size, key_bits);
  SIM_CHECK(map.capacity() == size, "map-capacity", "capacity");
  std::mutex lock; // modifications are not concurrent, reads may be
  const std::size_t tasks = sim::range(1, 12), ops = sim::range(1, 12);
  in_parallel(tasks, [&](std::size_t) {
    for (std::size_t o = 0; o < ops; ++o) {
      const Int key = keys[sim::range(0, keys.size() - 1)];
      const int what = sim::range(0, 4);
      if (what == 0) { // a concurrent read of any key: no crash, no garbage key
        (void)map.get(static_cast<Int>(sim::range(0, max_key - 1)));
        continue;
      }
      std::unique_lock guard(lock);
      const Int cur = model[key];
      if (what <= 2 || cur == 0) {
        const Int by = sim::range(1, std::max<Int>(1, max_value / 8));
        if (cur > max_value - by) continue;
        const bool inserted = map.increase_by(key, by);
        SIM_CHECK(inserted == (cur == 0), "map-insert", sim::fmt("insertion of key %llu reported wrongly", (unsigned long long)key));
        model[key] = cur + by;
      } else {
        const Int by = sim::coin() ? cur : static_cast<Int>(sim::range(1, cur));
        const bool erased = map.decrease_by(key, by);
        SIM_CHECK(erased == (cur == by), "map-erase", sim::fmt("deletion of key %llu reported wrongly", (unsigned long long)key));
        model[key] = cur - by;
      }
      SIM_CHECK(map.get(key) == model[key], "map-value", sim::fmt("key %llu has a wrong value after changing it", (unsigned long long)key));
    }
  });
  sim::NoPreempt np;
  std::size_t present = 0;
  for (Int key = 0; key < max_key; ++key) {
    present += model[key] > 0;
    SIM_CHECK(map.get(key) == model[key], "map-value",
              sim::fmt("key %llu has value %llu, expected %llu (size %zu)", (unsigned long long)key,
                       (unsigned long long)map.get(key), (unsigned long long)model[key], size));
  }
  SIM_CHECK(map.count() == present, "map-count", sim::fmt("%zu keys, expected %zu", map.count(), present));
  std::set<Int> enumerated;
  map.for_each([&](const Int key, const Int value) {
    SIM_CHECK(key < max_key && model[key] == value && value > 0, "map-enumeration", "wrong key or value enumerated");
    SIM_CHECK(enumerated.insert(key).second, "map-enumeration", "key enumerated twice");
  });
  SIM_CHECK(enumerated.size() == present, "map-enumeration", "keys are missing from the enumeration");
  (void)P;
}

void run() {
  const int P = static_cast<int>(sim::range(1, 6));
  sim::tbb_configure(P);
  if (P > 1) sim::mark_nontrivial();
  const int what = static_cast<int>(sim::range(0, 13));
  static const char *const names[] = {"circular-spin", "circular-mutex", "list", "list-large", "reset-array", "local-reset",
                                      "static-array", "static-array", "compact-array", "ets", "hash-map", "hash-map-full",
                                      "circular-spin", "circular-mutex"};
  sim::note(sim::fmt("%s P=%d", names[what], P));
  sim::count(names[what]);
  switch (what) {
  case 0: circular<ConcurrentCircularVectorSpinlock<std::size_t, u64>, u64>(P); break;
  case 12: circular<ConcurrentCircularVectorSpinlock<std::size_t, std::uint32_t>, std::uint32_t>(P); break;
  case 1: circular<ConcurrentCircularVectorMutex<std::size_t, u64>, u64>(P); break;
  case 13: circular<ConcurrentCircularVectorMutex<std::size_t, std::uint32_t>, std::uint32_t>(P); break;
  case 2: sim::coin() ? navigable<ScalableVector, u64>(false) : navigable<NoinitVector, u64>(false); break;
  case 3: sim::coin(0.1) ? navigable<ScalableVector, std::uint32_t>(true) : navigable<StdVector, std::uint32_t>(false); break;
  case 4: sim::coin() ? concurrent_reset_array<u64>(P) : concurrent_reset_array<std::uint32_t>(P); break;
  case 5: local_reset(); break;
  case 6: static_arrays<std::uint32_t>(); break;
  case 7: sim::coin() ? static_arrays<u64>() : static_arrays<std::uint8_t>(); break;
  case 8: sim::coin() ? compact_array<u64>() : compact_array<std::uint32_t>(); break;
  case 9: ets(P); break;
  case 10: sim::coin() ? hash_map<u64, false>(P) : hash_map<std::uint32_t, false>(P); break;
  default: sim::coin() ? hash_map<u64, true>(P) : hash_map<std::uint32_t, true>(P); break;
  }
}
} // namespace

sim::Check sim::the_check = {"containers", run, 1000000000, "hang"};
