// What the instrumented copy of the library (prefix tr_) shows to the observer
// of w_c22: every basic block and every memory access of compiled code.
#include <string.h>
#include "core.hpp"
bool g_tr_on = false;
void tr_see(u64 pc, u64 addr);
#define PC ((u64)__builtin_return_address(0))
static inline void acc(u64 pc, const void* a, unsigned k) { if (g_tr_on) tr_see(pc, (u64)a + k + 1); }
typedef unsigned char a8;
typedef unsigned short a16;
typedef unsigned int a32;
typedef unsigned long a64;
extern "C" {
void __sanitizer_cov_trace_pc(void) { if (g_tr_on) tr_see(PC, 0); }
void __tsan_init(void) {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void) {}
#define RW(n) \
  void __tsan_read##n(void* a) { acc(PC, a, 0); } \
  void __tsan_write##n(void* a) { acc(PC, a, 0); } \
  void __tsan_unaligned_read##n(void* a) { acc(PC, a, 0); } \
  void __tsan_unaligned_write##n(void* a) { acc(PC, a, 0); } \
  void __tsan_volatile_read##n(void* a) { acc(PC, a, 0); } \
  void __tsan_volatile_write##n(void* a) { acc(PC, a, 0); } \
  void __tsan_unaligned_volatile_read##n(void* a) { acc(PC, a, 0); } \
  void __tsan_unaligned_volatile_write##n(void* a) { acc(PC, a, 0); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, unsigned long n) { acc(PC, a, 0); acc(PC, (char*)a + n, 0); }
void __tsan_write_range(void* a, unsigned long n) { acc(PC, a, 0); acc(PC, (char*)a + n, 0); }
void __tsan_vptr_update(void* a, void*) { acc(PC, a, 0); }
void __tsan_vptr_read(void* a) { acc(PC, a, 0); }
#define ATOMIC(n) \
  a##n __tsan_atomic##n##_load(const volatile a##n* a, int) { acc(PC, (const void*)a, 0); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##n##_store(volatile a##n* a, a##n v, int) { acc(PC, (const void*)a, 0); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  a##n __tsan_atomic##n##_exchange(volatile a##n* a, a##n v, int) { acc(PC, (const void*)a, 0); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  a##n __tsan_atomic##n##_fetch_add(volatile a##n* a, a##n v, int) { acc(PC, (const void*)a, 0); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  a##n __tsan_atomic##n##_fetch_sub(volatile a##n* a, a##n v, int) { acc(PC, (const void*)a, 0); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  a##n __tsan_atomic##n##_fetch_and(volatile a##n* a, a##n v, int) { acc(PC, (const void*)a, 0); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  a##n __tsan_atomic##n##_fetch_or(volatile a##n* a, a##n v, int) { acc(PC, (const void*)a, 0); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  a##n __tsan_atomic##n##_fetch_xor(volatile a##n* a, a##n v, int) { acc(PC, (const void*)a, 0); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile a##n* a, a##n* e, a##n v, int, int) { acc(PC, (const void*)a, 0); return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##n##_compare_exchange_weak(volatile a##n* a, a##n* e, a##n v, int, int) { acc(PC, (const void*)a, 0); return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  a##n __tsan_atomic##n##_compare_exchange_val(volatile a##n* a, a##n e, a##n v, int, int) { acc(PC, (const void*)a, 0); __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
ATOMIC(8) ATOMIC(16) ATOMIC(32) ATOMIC(64)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
void vs_prefetch(const void* a) { acc(PC, a, 7); }
// block operations of the instrumented copy
static inline void blk(u64 pc, const void* d, const void* s, size_t n) { if (g_tr_on) { tr_see(pc, (u64)d + 1); tr_see((u64)s, n); } }
void* vs_memcpy(void* d, const void* s, size_t n) { blk(PC, d, s, n); return memcpy(d, s, n); }
void* vs_memmove(void* d, const void* s, size_t n) { blk(PC, d, s, n); return memmove(d, s, n); }
void* vs_memset(void* d, int v, size_t n) { blk(PC, d, nullptr, n); return memset(d, v, n); }
int vs_memcmp(const void* a, const void* b, size_t n) {
  size_t i = 0;
  while (i < n && ((const char*)a)[i] == ((const char*)b)[i]) i++;
  blk(PC, a, b, n);
  if (g_tr_on) tr_see(PC, i + 1);
  return memcmp(a, b, n);
}
}
