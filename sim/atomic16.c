/* libatomic's 16-byte entry points; one OS thread, so plain accesses are atomic. */
typedef unsigned __int128 u128;
extern long long g_sim_budget;
void sim_preempt_slow(void *pc);
#define TICK                                                                                       \
  do {                                                                                             \
    if ((g_sim_budget -= 6) <= 0)                                                                  \
      sim_preempt_slow(__builtin_return_address(0));                                               \
  } while (0)
_Bool sim_cas16(volatile u128 *a, u128 *e, u128 d, int s, int f) __asm__("__atomic_compare_exchange_16");
_Bool sim_cas16(volatile u128 *a, u128 *e, u128 d, int s, int f) {
  TICK;
  u128 o = *a;
  if (o == *e) {
    *a = d;
    return 1;
  }
  *e = o;
  return 0;
}
u128 sim_load16(const volatile u128 *a, int o) __asm__("__atomic_load_16");
u128 sim_load16(const volatile u128 *a, int o) {
  TICK;
  return *a;
}
void sim_store16(volatile u128 *a, u128 v, int o) __asm__("__atomic_store_16");
void sim_store16(volatile u128 *a, u128 v, int o) {
  TICK;
  *a = v;
}
u128 sim_xchg16(volatile u128 *a, u128 v, int o) __asm__("__atomic_exchange_16");
u128 sim_xchg16(volatile u128 *a, u128 v, int o) {
  TICK;
  u128 old = *a;
  *a = v;
  return old;
}
