// The simulated host of the library: memory it is given, heap, entropy device,
// process control, and the guarded way of calling it.
#pragma once
#include <setjmp.h>
#include <signal.h>
#include "core.hpp"

// ------------------------------------------------------------------ arena
// Slots of fixed address: [guard][data pages][guard].
enum SlotClass { SMALL = 0, MEDIUM = 1, LARGE = 2 };
struct Buf {
  uint8_t* p = nullptr;
  size_t len = 0;
  int slot = -1;
  uint8_t fill = 0;
};
void arena_init();
void arena_reset();                      // everything writable, slots free
size_t slot_count(SlotClass c);
size_t slot_bytes(SlotClass c);
SlotClass class_for(size_t len);
// end: place against the guard page behind (with align slack), else `off` bytes
// behind the guard page in front.
Buf place(size_t slot, size_t len, bool end, size_t align, size_t off, uint8_t fill);
void buf_protect(const Buf& b, bool readonly);
void buf_free(const Buf& b);
// empty string when everything around the buffer is untouched
std::string buf_check_surroundings(const Buf& b);
void arena_protect_at(const void* p, bool readonly);  // the slot p lies in
std::string describe_addr(const void* a);

// ------------------------------------------------------------------ heap
struct HeapCfg {
  std::vector<u64> fail;   // ordinals (from 0) of allocations of this run that fail
  bool fail_all = false;
  uint8_t fill = 0xA7;     // content of fresh blocks
  bool fifo = false;       // reuse order
  bool huge = false;       // blocks beyond the usual size are mapped, not refused
};
void heap_reset(const HeapCfg& c);
HeapCfg& heap_cfg();
u64 mem_available();  // megabytes the machine can spare
u64 heap_live();
u64 heap_allocs();
u64 heap_failed();
std::string heap_error();  // double free, bad free, overrun; "" if none
size_t heap_block_size(const void* p);  // 0: not live
size_t heap_room(const void* p);        // bytes from p to the end of its live block
std::string heap_check();  // canaries of live blocks

// ------------------------------------------------------------------ entropy
struct EntropyCfg {
  std::vector<std::string> open_script, read_script, close_script;
  u64 seed = 1;
  int first_fd = 5;
  u64 max_calls = 4000;
};
void entropy_reset(const EntropyCfg& c);
const Bytes& entropy_delivered();
size_t entropy_open_fds();
u64 entropy_calls();
size_t entropy_script_left();
std::string entropy_error();
u64 stray_output();

// ------------------------------------------------------------------ library statics
void libstate_snapshot();
void libstate_restore();
size_t libstate_size();
bool libstate_contains(const void* a);
u64 libstate_hash();

// ------------------------------------------------------------------ guarded calls
enum Outcome { OC_OK = 0, OC_CRASH, OC_ABORT, OC_EXIT, OC_STUCK, OC_ABANDON, OC_ABI };
struct GuardResult { Outcome oc; int sig; void* addr; std::string text() const; };
extern thread_local sigjmp_buf* g_guard;
extern thread_local GuardResult g_guard_res;
[[noreturn]] void guard_exit(Outcome oc, int sig, void* addr);
void host_signals_init();
void host_thread_signals(int idx = 0);  // alternate stack for the calling thread
// first look at a signal (page traps and stepping of the concurrency worlds)
extern bool (*g_trap)(int, siginfo_t*, void*);
extern void (*g_trap_off)();
// device bytes for the calling thread come from here when set
extern thread_local Rng* g_edel_rng;
extern thread_local unsigned g_abi;   // registers a call did not give back
template <class F> GuardResult guarded(F f) {
  sigjmp_buf jb;
  sigjmp_buf* prev = g_guard;
  GuardResult r{OC_OK, 0, nullptr};
  if (sigsetjmp(jb, 1) == 0) {
    g_guard = &jb;
    g_abi = 0;
    f();
    if (g_abi) { r.oc = OC_ABI; r.sig = (int)g_abi; g_abi = 0; }
  } else {
    r = g_guard_res;
  }
  g_guard = prev;
  return r;
}

// Raw call of a library function with integer/pointer arguments. When poison is
// set the stack below, the registers and the flags hold garbage at entry.
struct PoisonCfg { bool on = false; u64 seed = 0; size_t stack = 96 * 1024; };
extern thread_local PoisonCfg g_poison;
// The memory a call left behind, as a dump taken at its last instant would show
// it: what lies below its caller's stack, and blocks it gave back.
struct DumpCfg { bool on = false; uint8_t* buf = nullptr; size_t n = 0; Bytes freed; };
extern DumpCfg g_dump;
std::vector<std::pair<const uint8_t*, size_t>> lib_memory();  // statics and thread-locals
u64 lib_callv(void* fn, int n, const u64* a);
template <class Ret, class... A, class... B> u64 lib_call(Ret (*fn)(A...), B... b) {
  static_assert(sizeof...(A) == sizeof...(B), "arguments");
  u64 v[sizeof...(A) + 1] = {(u64)(A)b...};
  return lib_callv((void*)fn, sizeof...(A), v);
}

// yields of the seams (scheduler worlds hook this)
extern void (*g_seam_yield)(const char* what);

// run f on a fresh thread with its own stack at a fixed address; exceptions of
// type Viol are passed on.
void on_fresh_thread(const std::function<void()>& f, int idx = 0);
void* stack_for(int idx, size_t* size);
