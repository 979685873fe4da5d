// Control points inside library calls: every memory access of the instrumented
// build, every access to the library's statics (page traps, inline assembly
// included), every seam, and single instructions where a world asks for them.
#pragma once
#include "ops.hpp"
struct Ctl {
  bool on = false;           // inside a call of the library
  u64 any = 0, hot = 0;      // accesses; accesses to memory that another call could share
  u64 spins = 0;
  u64 next_any = ~0ull, next_hot = ~0ull, budget = ~0ull;
  u64 step = 0;              // library instructions until the next point (0: not stepping)
  void (*point)(Ctl*, const char* why) = nullptr;  // why: any hot step spin lock budget
  void* user = nullptr;
};
extern thread_local Ctl* g_ctl;
extern bool g_tls_hot;       // thread-local variables count as shared
void conc_arm();             // trap accesses to the library's statics from here on
void conc_disarm();
u64 conc_traps();
void shared_clear();
void shared_add(const void* p, size_t n);  // writes to it are hot

// One call in simulated memory, of any kind, and what came of it.
struct Item {
  Line l;
  int kind = 0;              // 0 op 1 rand 2 print
  Op op;
  std::string name, text;
  std::vector<Buf> own, out;
  std::vector<uint8_t*> pin, pout, pscr;
  std::function<u64()> call;
  u64 ret = 0;
  bool noret = false;
  GuardResult g{OC_OK, 0, nullptr};
  char* txt = nullptr;
  size_t txtn = 0;
  FILE* f = nullptr;
  u64 devseed = 0;
};
typedef std::map<std::string, Buf> Shared;       // inputs by content
struct Outcome1 { GuardResult g{OC_OK, 0, nullptr}; u64 ret = 0; std::vector<Bytes> out; std::string stray; };
bool item_make(Item& it, const Line& l);
void item_put(Item& it, Shared* sh);
u64 item_exec(Item& it);                         // unguarded; on the calling thread
Outcome1 item_outcome(Item& it);
void item_release(Item& it);
std::string outcome_diff(const Item& it, const Outcome1& got, const Outcome1& want);  // "" if equal
Line gen_item(Rng& r, const Pool& p, unsigned kinds);
