/* Atomic operations are scheduling points: clang's -fsanitize=thread pass turns
   each into one of these calls.  (No ThreadSanitizer runtime is linked.) */
#include "sx.h"
#define OPS(B, T) \
  T __tsan_atomic##B##_load(T const volatile* a, int mo) { sx_yield("load"); return *a; } \
  void __tsan_atomic##B##_store(T volatile* a, T v, int mo) { sx_yield("store"); *a = v; } \
  T __tsan_atomic##B##_exchange(T volatile* a, T v, int mo) { sx_yield("xchg"); T o = *a; *a = v; return o; } \
  T __tsan_atomic##B##_fetch_add(T volatile* a, T v, int mo) { T o = *a; *a = o + v; return o; } \
  T __tsan_atomic##B##_fetch_sub(T volatile* a, T v, int mo) { T o = *a; *a = o - v; return o; } \
  T __tsan_atomic##B##_fetch_and(T volatile* a, T v, int mo) { sx_yield("and"); T o = *a; *a = o & v; return o; } \
  T __tsan_atomic##B##_fetch_or(T volatile* a, T v, int mo) { sx_yield("or"); T o = *a; *a = o | v; return o; } \
  T __tsan_atomic##B##_fetch_xor(T volatile* a, T v, int mo) { sx_yield("xor"); T o = *a; *a = o ^ v; return o; } \
  int __tsan_atomic##B##_compare_exchange_strong(T volatile* a, T* c, T v, int mo, int fmo) { sx_yield("cas"); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  int __tsan_atomic##B##_compare_exchange_weak(T volatile* a, T* c, T v, int mo, int fmo) { sx_yield("cas"); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  T __tsan_atomic##B##_compare_exchange_val(T volatile* a, T c, T v, int mo, int fmo) { sx_yield("cas"); T o = *a; if (o == c) *a = v; return o; }
OPS(8, uint8_t) OPS(16, uint16_t) OPS(32, uint32_t) OPS(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {}
void __tsan_atomic_signal_fence(int mo) {}
void __tsan_init(void) {}
void __tsan_vptr_update(void** p, void* v) {}
void __tsan_vptr_read(void** p) {}
void* __tsan_memcpy(void* d, void const* s, size_t n) { return __builtin_memcpy(d, s, n); }
void* __tsan_memmove(void* d, void const* s, size_t n) { return __builtin_memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { return __builtin_memset(d, c, n); }
