// The run-time part of the instrumentation (-fsanitize=thread emits calls of
// these functions for every memory access), page traps and stepping.
#include <errno.h>
#include <link.h>
#include <signal.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>
#include "conc.hpp"

thread_local Ctl* g_ctl = nullptr;
bool g_tls_hot = false;
extern "C" {
__attribute__((section("libdata"), used, aligned(4096))) char vs_pad_data[4096] = {1};
__attribute__((section("libbss"), used, aligned(4096))) char vs_pad_bss[4096] = {1};
extern char vs_anchor_data[4096], vs_anchor_bss[4096];
extern char __start_libtext[], __stop_libtext[];
}
static std::vector<std::pair<const char*, size_t>> g_shared;
void shared_clear() { g_shared.clear(); }
void shared_add(const void* p, size_t n) { if (n) g_shared.push_back({(const char*)p, n}); }

// ------------------------------------------------------------------ page traps
static bool g_armed, g_closed, g_after;
static u64 g_ntraps;
static const u64 TRAP_CAP = 20000;
struct Range { char *lo, *hi; };
static Range statics(int k) {
  char* a = k ? vs_anchor_bss : vs_anchor_data;
  char* b = k ? vs_pad_bss : vs_pad_data;
  return a < b ? Range{a + 4096, b} : Range{nullptr, nullptr};
}
static bool in_statics(const void* p) {
  for (int k = 0; k < 2; k++) { Range r = statics(k); if ((const char*)p >= r.lo && (const char*)p < r.hi) return true; }
  return false;
}
static void set_prot(int prot) {
  for (int k = 0; k < 2; k++) { Range r = statics(k); if (r.hi > r.lo) mprotect(r.lo, r.hi - r.lo, prot); }
}
static void close_pages() { if (g_armed && !g_closed) { set_prot(PROT_NONE); g_closed = true; } }
static void open_pages() { if (g_closed) { set_prot(PROT_READ | PROT_WRITE); g_closed = false; } }
void conc_disarm() { open_pages(); g_armed = g_after = false; }
void conc_settle() { g_after = false; close_pages(); }
u64 conc_traps() { return g_ntraps; }
static bool lib_pc(u64 pc) { return pc >= (u64)__start_libtext && pc < (u64)__stop_libtext; }
static void due(Ctl* c, const char* why) { if (c->point) c->point(c, why); }
static const u64 TF = 0x100;
// What runs at the interruption uses the stack below the interrupted call: all
// but the 128 bytes next to its stack pointer may be overwritten at any instant.
static void handler_frame(greg_t* g) {
  char here;
  u64 sp = (u64)g[REG_RSP], me = (u64)&here;
  if (!lib_pc((u64)g[REG_RIP]) || (me < sp && sp - me < (8u << 20))) return;  // the kernel did it already
  memset((void*)(sp - 128 - 1024), 0xD7, 1024);
}
static bool on_trap(int sig, siginfo_t* si, void* ucv) {
  ucontext_t* uc = (ucontext_t*)ucv;
  greg_t* g = uc->uc_mcontext.gregs;
  Ctl* c = g_ctl;
  int e = errno;
  if (sig == SIGSEGV && g_closed && in_statics(si->si_addr)) {
    if (c && c->on && lib_pc((u64)g[REG_RIP])) {
      c->hot++;
      if (c->hot >= c->next_hot) due(c, "hot");
    }
    g_ntraps++;
    open_pages();
    if (g_ntraps >= TRAP_CAP) g_armed = false;
    else { g_after = true; g[REG_EFL] |= TF; }
    if (c && c->step) g[REG_EFL] |= TF;
    errno = e;
    return true;
  }
  if (sig == SIGTRAP && (si->si_code == TRAP_TRACE || si->si_code == TRAP_HWBKPT || si->si_code == SI_KERNEL || si->si_code == TRAP_BRKPT)) {
    if (!g_after && !(c && c->step)) { g[REG_EFL] &= ~TF; return true; }
    if (g_after) { g_after = false; close_pages(); }
    if (c && c->on && c->step) handler_frame(g);
    if (c && c->step) {
      if (!c->on) c->step = 0;
      else if (lib_pc((u64)g[REG_RIP]) && --c->step == 0) due(c, "step");
    }
    if (c && c->step) g[REG_EFL] |= TF; else g[REG_EFL] &= ~TF;
    errno = e;
    return true;
  }
  return false;
}
static void soft_point(const char* why);
void conc_arm() {
  g_trap = on_trap;
  g_seam_yield = soft_point;
  g_trap_off = conc_disarm;
  g_ntraps = 0;
  g_armed = true;
  close_pages();
}
static inline void set_tf() { __asm__ volatile("pushfq\n orq $0x100,(%%rsp)\n popfq" ::: "memory", "cc"); }
static inline void clear_tf() { __asm__ volatile("pushfq\n andq $~0x100,(%%rsp)\n popfq" ::: "memory", "cc"); }

// ------------------------------------------------------------------ accesses
static u64 tls_size() {
  static u64 n = 0;
  if (!n) {
    dl_iterate_phdr([](struct dl_phdr_info* i, size_t, void* p) {
      for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS) { u64 a = i->dlpi_phdr[k].p_align ? i->dlpi_phdr[k].p_align : 1; *(u64*)p = (i->dlpi_phdr[k].p_memsz + a - 1) / a * a; }
      return 1;  // the program itself comes first
    }, &n);
    if (!n) n = 1;
  }
  return n;
}
static inline u64 fs_base() { u64 v; __asm__("mov %%fs:0,%0" : "=r"(v)); return v; }
static inline bool is_hot(const void* a, bool w) {
  u64 x = (u64)a;
  if (x >= 0x130000000000ull && x < 0x150000000000ull) return true;  // the heap
  if (!g_closed && in_statics(a)) return true;                       // trapped otherwise
  if (g_tls_hot) { u64 fs = fs_base(); if (x < fs && x >= fs - tls_size()) return true; }
  if (w && x >= 0x100000000000ull && x < 0x130000000000ull)
    for (auto& s : g_shared) if ((const char*)a >= s.first && (const char*)a < s.first + s.second) return true;
  return false;
}
static inline void acc(const void* a, bool w) {
  Ctl* c = g_ctl;
  if (!c || !c->on) return;
  c->any++;
  bool h = is_hot(a, w);
  if (h) c->hot++;
  if (c->any >= c->next_any || (h && c->hot >= c->next_hot) || c->any > c->budget) {
    if (c->step) { clear_tf(); c->step = 0; }
    due(c, c->any > c->budget ? "budget" : c->any >= c->next_any ? "any" : "hot");
    if (c->step) set_tf();
  }
}
static void soft_point(const char* why) {  // a point that is no access
  Ctl* c = g_ctl;
  if (!c || !c->on) return;
  if (c->step) { clear_tf(); c->step = 0; }
  c->any++;
  if (!strcmp(why, "lock") || !strcmp(why, "once")) { due(c, "lock"); return; }
  c->hot++;
  if (c->any >= c->next_any || c->hot >= c->next_hot) due(c, c->any >= c->next_any ? "any" : "hot");
}
static inline void spin() {
  Ctl* c = g_ctl;
  if (c && c->on && ++c->spins % 64 == 0) { if (c->step) { clear_tf(); c->step = 0; } due(c, "spin"); }
}
typedef unsigned char a8;
typedef unsigned short a16;
typedef unsigned int a32;
typedef unsigned long a64;
typedef unsigned __int128 a128;
extern "C" {
void __tsan_init(void) {}
void __tsan_func_entry(void*) { acc(nullptr, false); }
void __tsan_func_exit(void) { acc(nullptr, false); }
#define RW(n) \
  void __tsan_read##n(void* a) { acc(a, false); } \
  void __tsan_write##n(void* a) { acc(a, true); } \
  void __tsan_unaligned_read##n(void* a) { acc(a, false); } \
  void __tsan_unaligned_write##n(void* a) { acc(a, true); } \
  void __tsan_volatile_read##n(void* a) { acc(a, false); } \
  void __tsan_volatile_write##n(void* a) { acc(a, true); } \
  void __tsan_unaligned_volatile_read##n(void* a) { acc(a, false); } \
  void __tsan_unaligned_volatile_write##n(void* a) { acc(a, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, unsigned long) { acc(a, false); }
void __tsan_write_range(void* a, unsigned long) { acc(a, true); }
void __tsan_vptr_update(void* a, void*) { acc(a, true); }
void __tsan_vptr_read(void* a) { acc(a, false); }
#define ATOMIC(n) \
  a##n __tsan_atomic##n##_load(const volatile a##n* a, int) { acc((const void*)a, false); spin(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##n##_store(volatile a##n* a, a##n v, int) { acc((const void*)a, true); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  a##n __tsan_atomic##n##_exchange(volatile a##n* a, a##n v, int) { acc((const void*)a, true); spin(); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  a##n __tsan_atomic##n##_fetch_add(volatile a##n* a, a##n v, int) { acc((const void*)a, true); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  a##n __tsan_atomic##n##_fetch_sub(volatile a##n* a, a##n v, int) { acc((const void*)a, true); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  a##n __tsan_atomic##n##_fetch_and(volatile a##n* a, a##n v, int) { acc((const void*)a, true); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  a##n __tsan_atomic##n##_fetch_or(volatile a##n* a, a##n v, int) { acc((const void*)a, true); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  a##n __tsan_atomic##n##_fetch_xor(volatile a##n* a, a##n v, int) { acc((const void*)a, true); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  a##n __tsan_atomic##n##_fetch_nand(volatile a##n* a, a##n v, int) { acc((const void*)a, true); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile a##n* a, a##n* e, a##n v, int, int) { acc((const void*)a, true); spin(); return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##n##_compare_exchange_weak(volatile a##n* a, a##n* e, a##n v, int, int) { acc((const void*)a, true); spin(); return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  a##n __tsan_atomic##n##_compare_exchange_val(volatile a##n* a, a##n e, a##n v, int, int) { acc((const void*)a, true); spin(); __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
ATOMIC(8) ATOMIC(16) ATOMIC(32) ATOMIC(64)
void __tsan_atomic_thread_fence(int) { acc(nullptr, false); }
void __tsan_atomic_signal_fence(int) { acc(nullptr, false); }

// block operations: points before, in the middle and behind
static bool touches(const void* p, size_t n) {
  const char* a = (const char*)p;
  for (int k = 0; k < 2; k++) { Range r = statics(k); if (n && a < r.hi && a + n > r.lo) return true; }
  return false;
}
static void block_point(const void* d, const void* s, size_t n) {
  Ctl* c = g_ctl;
  if (!c || !c->on) return;
  bool st = touches(d, n) || (s && touches(s, n));
  if (st && g_closed) { c->hot++; if (c->hot >= c->next_hot) { if (c->step) { clear_tf(); c->step = 0; } due(c, "hot"); } }
  if (d) acc(d, true);
  if (s) acc(s, false);
}
struct Opened { bool was; Opened(const void* d, const void* s, size_t n) : was(g_closed && (touches(d, n) || (s && touches(s, n)))) { if (was) open_pages(); } ~Opened() { if (was) close_pages(); } };
static void copy_part(char* d, const char* s, size_t n) {
  Opened o(d, s, n);
  memmove(d, s, n);
}
void* vs_memcpy(void* d, const void* s, size_t n) {
  if (!n) return d;
  block_point(d, s, n);
  size_t h = n / 2;
  copy_part((char*)d, (const char*)s, h);
  block_point((char*)d + h, (const char*)s + h, n - h);
  copy_part((char*)d + h, (const char*)s + h, n - h);
  block_point(d, s, n);
  return d;
}
void* vs_memmove(void* d, const void* s, size_t n) {
  if (!n) return d;
  block_point(d, s, n);
  copy_part((char*)d, (const char*)s, n);
  block_point(d, s, n);
  return d;
}
void* vs_memset(void* d, int v, size_t n) {
  if (!n) return d;
  block_point(d, nullptr, n);
  size_t h = n / 2;
  { Opened o(d, nullptr, h); memset(d, v, h); }
  block_point((char*)d + h, nullptr, n - h);
  { Opened o((char*)d + h, nullptr, n - h); memset((char*)d + h, v, n - h); }
  block_point(d, nullptr, n);
  return d;
}
int vs_memcmp(const void* a, const void* b, size_t n) {
  if (!n) return 0;
  block_point(nullptr, a, n);
  block_point(nullptr, b, n);
  Opened o(a, b, n);
  return memcmp(a, b, n);
}
}
