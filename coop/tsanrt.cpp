// Memory-access scheduling points: the code under test is compiled with -fsanitize=thread, but the hooks the compiler
// inserts end up here instead of in the ThreadSanitizer runtime. Every access to memory outside the thread's own stack
// may become a scheduling point, so unprotected critical sections can be interleaved.
#include "coop.h"
#include <pthread.h>
#include <atomic>
#include <cstring>
namespace coop { bool is_quiet(); }
namespace {
thread_local std::uintptr_t lo = 0, hi = 0;
void bounds() {
    pthread_attr_t a; void* p = nullptr; std::size_t n = 0;
    if (pthread_getattr_np(pthread_self(), &a) == 0) { pthread_attr_getstack(&a, &p, &n); pthread_attr_destroy(&a); }
    lo = reinterpret_cast<std::uintptr_t>(p); hi = lo + n;
}
inline void hit(void* p) {
    if (! coop::managed() || coop::is_quiet()) return;
    if (hi == 0) bounds();
    auto x = reinterpret_cast<std::uintptr_t>(p);
    if (x >= lo && x < hi) return;
    coop::mem_point();
}
thread_local unsigned spins = 0;
inline void at(void* p) { hit(p); if (coop::managed() && ! coop::is_quiet() && (++spins & 1023U) == 0) coop::point(coop::pk::spin); }
}
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* p) { hit(p); } void __tsan_write##n(void* p) { hit(p); } \
  void __tsan_unaligned_read##n(void* p) { hit(p); } void __tsan_unaligned_write##n(void* p) { hit(p); } \
  void __tsan_volatile_read##n(void* p) { hit(p); } void __tsan_volatile_write##n(void* p) { hit(p); } \
  void __tsan_unaligned_volatile_read##n(void* p) { hit(p); } void __tsan_unaligned_volatile_write##n(void* p) { hit(p); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long) { hit(p); }
void __tsan_write_range(void* p, unsigned long) { hit(p); }
void __tsan_vptr_update(void** p, void*) { hit(p); }
void __tsan_vptr_read(void** p) { hit(p); }
#define AT(n, T) \
  T __tsan_atomic##n##_load(T const volatile* a, int) { at((void*) a); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##n##_store(T volatile* a, T v, int) { at((void*) a); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_exchange(T volatile* a, T v, int) { at((void*) a); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_add(T volatile* a, T v, int) { at((void*) a); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_sub(T volatile* a, T v, int) { at((void*) a); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_and(T volatile* a, T v, int) { at((void*) a); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_or(T volatile* a, T v, int) { at((void*) a); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_xor(T volatile* a, T v, int) { at((void*) a); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##n##_compare_exchange_strong(T volatile* a, T* c, T v, int, int) { at((void*) a); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##n##_compare_exchange_weak(T volatile* a, T* c, T v, int, int) { at((void*) a); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_compare_exchange_val(T volatile* a, T c, T v, int, int) { at((void*) a); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}
}
extern "C" void AnnotateBenignRaceSized(char const*, int, void const volatile*, long, char const*) {}
