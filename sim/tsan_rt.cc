// Runtime for code compiled with -fsanitize=thread: every instrumented memory access is a potential
// (deterministic) preemption point. No race detection happens here.
#include "core.h"
#include <cstring>

#define HOT extern "C" __attribute__((noinline, hot))
#define TICK(w)                                                                                    \
  do {                                                                                             \
    if (__builtin_expect((g_sim_budget -= (w)) <= 0, 0)) {                                         \
      sim_preempt_slow(__builtin_return_address(0));                                               \
    } else if (__builtin_expect(                                                                   \
                   ((static_cast<unsigned>(reinterpret_cast<std::uintptr_t>(                       \
                         __builtin_return_address(0)                                               \
                     ) & 0xfff) * 0x9E3779B1u >> 16) & g_site_and) == g_site_val,                  \
                   0                                                                               \
               )) {                                                                                \
      sim_site_slow(__builtin_return_address(0));                                                  \
    }                                                                                              \
  } while (0)

// Every instrumented access to the run arena must hit allocated memory.
static inline bool byte_ok(std::uintptr_t off) {
  const std::uint8_t sh = *reinterpret_cast<const std::uint8_t *>(sim::heap::kShadow + (off >> 3));
  return __builtin_expect(sh == 0, 1) || (off & 7) < sh && sh < 8;
}
#define VALID(p, n, w)                                                                             \
  do {                                                                                             \
    const std::uintptr_t off_ = reinterpret_cast<std::uintptr_t>(p) - sim::heap::kRun;             \
    if (off_ < sim::heap::kRunSize) {                                                              \
      if (__builtin_expect(                                                                        \
              off_ + (n) > g_sim_heap_top - sim::heap::kRun || !byte_ok(off_) ||                   \
                  ((n) > 1 && !byte_ok(off_ + (n)-1)),                                             \
              0                                                                                    \
          )) {                                                                                     \
        sim::heap::bad_access((const void *)(p), (n), __builtin_return_address(0), (w));           \
      }                                                                                            \
    }                                                                                              \
  } while (0)

#define ACCESS(name, n, w)                                                                         \
  HOT void __tsan_##name##n(void *p) {                                                             \
    VALID(p, n, w);                                                                                \
    TICK(1);                                                                                       \
  }
#define ACCESS_ALL(n)                                                                              \
  ACCESS(read, n, false)                                                                           \
  ACCESS(write, n, true)                                                                           \
  ACCESS(read_write, n, true)                                                                      \
  ACCESS(unaligned_read, n, false)                                                                 \
  ACCESS(unaligned_write, n, true)                                                                 \
  ACCESS(unaligned_read_write, n, true)                                                            \
  ACCESS(volatile_read, n, false)                                                                  \
  ACCESS(volatile_write, n, true)                                                                  \
  ACCESS(unaligned_volatile_read, n, false)                                                        \
  ACCESS(unaligned_volatile_write, n, true)
ACCESS_ALL(1)
ACCESS_ALL(2)
ACCESS_ALL(4)
ACCESS_ALL(8)
ACCESS_ALL(16)

HOT void __tsan_read_range(void *p, std::size_t n) {
  if (n > 0) VALID(p, n, false);
  TICK(1);
}
HOT void __tsan_write_range(void *p, std::size_t n) {
  if (n > 0) VALID(p, n, true);
  TICK(1);
}
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
}

HOT void *__tsan_memcpy(void *d, const void *s, std::size_t n) {
  if (n > 0) {
    VALID(s, n, false);
    VALID(d, n, true);
  }
  TICK(1);
  return memcpy(d, s, n);
}
HOT void *__tsan_memmove(void *d, const void *s, std::size_t n) {
  if (n > 0) {
    VALID(s, n, false);
    VALID(d, n, true);
  }
  TICK(1);
  return memmove(d, s, n);
}
HOT void *__tsan_memset(void *d, int c, std::size_t n) {
  if (n > 0) VALID(d, n, true);
  TICK(1);
  return memset(d, c, n);
}

// Atomics: sequentially consistent; weighted so that switches cluster around them.
#define AW 6
#define ATOMICS(bits, T)                                                                           \
  HOT T __tsan_atomic##bits##_load(const volatile T *a, int) {                                     \
    VALID(a, sizeof(T), false);                                                                    \
    TICK(AW);                                                                                      \
    return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                   \
  }                                                                                                \
  HOT void __tsan_atomic##bits##_store(volatile T *a, T v, int) {                                  \
    VALID(a, sizeof(T), true);                                                                     \
    TICK(AW);                                                                                      \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                      \
  }                                                                                                \
  HOT T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) {                                  \
    VALID(a, sizeof(T), true);                                                                     \
    TICK(AW);                                                                                      \
    return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                            \
  }                                                                                                \
  HOT T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) {                                 \
    VALID(a, sizeof(T), true);                                                                     \
    TICK(AW);                                                                                      \
    return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                                             \
  }                                                                                                \
  HOT T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) {                                 \
    VALID(a, sizeof(T), true);                                                                     \
    TICK(AW);                                                                                      \
    return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                                             \
  }                                                                                                \
  HOT T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) {                                 \
    VALID(a, sizeof(T), true);                                                                     \
    TICK(AW);                                                                                      \
    return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                                             \
  }                                                                                                \
  HOT T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) {                                  \
    VALID(a, sizeof(T), true);                                                                     \
    TICK(AW);                                                                                      \
    return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                                              \
  }                                                                                                \
  HOT T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) {                                 \
    VALID(a, sizeof(T), true);                                                                     \
    TICK(AW);                                                                                      \
    return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                                             \
  }                                                                                                \
  HOT T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int) {                                \
    VALID(a, sizeof(T), true);                                                                     \
    TICK(AW);                                                                                      \
    return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST);                                            \
  }                                                                                                \
  HOT int __tsan_atomic##bits##_compare_exchange_strong(                                           \
      volatile T *a, T *c, T v, int, int                                                           \
  ) {                                                                                              \
    VALID(a, sizeof(T), true);                                                                     \
    TICK(AW);                                                                                      \
    return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);        \
  }                                                                                                \
  HOT int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) {        \
    VALID(a, sizeof(T), true);                                                                     \
    TICK(AW);                                                                                      \
    return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);        \
  }                                                                                                \
  HOT T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int, int) {            \
    VALID(a, sizeof(T), true);                                                                     \
    TICK(AW);                                                                                      \
    __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);              \
    return c;                                                                                      \
  }
ATOMICS(8, std::uint8_t)
ATOMICS(16, std::uint16_t)
ATOMICS(32, std::uint32_t)
ATOMICS(64, std::uint64_t)

typedef unsigned __int128 u128;
// single OS thread: plain accesses are atomic enough
HOT u128 __tsan_atomic128_load(const volatile u128 *a, int) {
  TICK(AW);
  return *a;
}
HOT void __tsan_atomic128_store(volatile u128 *a, u128 v, int) {
  TICK(AW);
  *a = v;
}
HOT u128 __tsan_atomic128_exchange(volatile u128 *a, u128 v, int) {
  TICK(AW);
  u128 o = *a;
  *a = v;
  return o;
}
HOT u128 __tsan_atomic128_compare_exchange_val(volatile u128 *a, u128 c, u128 v, int, int) {
  TICK(AW);
  u128 o = *a;
  if (o == c) {
    *a = v;
  }
  return o;
}
#define A128(op, expr)                                                                             \
  HOT u128 __tsan_atomic128_fetch_##op(volatile u128 *a, u128 v, int) {                            \
    VALID(a, 16, true);                                                                     \
    TICK(AW);                                                                                      \
    u128 o = *a;                                                                                   \
    *a = expr;                                                                                     \
    return o;                                                                                      \
  }
A128(add, o + v)
A128(sub, o - v)
A128(and, o &v)
A128(or, o | v)
A128(xor, o ^ v)

extern "C" void __tsan_atomic_thread_fence(int) {}
extern "C" void __tsan_atomic_signal_fence(int) {}

