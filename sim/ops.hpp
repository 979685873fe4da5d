// The operations of the library as plan lines: arguments, call, and what the
// result must be (computed by the independent models of ref.hpp).
#pragma once
#include "host.hpp"

struct Lib;  // see ops.cpp
extern const Lib* g_libs[4];
extern int g_nlibs;

struct Arg {
  std::string name;
  Bytes data;        // inputs
  size_t len = 0;    // outputs, scratch
  size_t align = 1;
};
enum Cmp { EXACT, MODP25519, PROJ25519 };  // PROJ: X Y Z T of each point, against its affine X Y
struct Expect {
  std::vector<u64> rets;     // allowed return codes; empty: any
  bool touched = true;       // false: outputs must keep their content
  std::vector<Bytes> outs;
  std::vector<Cmp> cmp;      // per output, default EXACT
  int verdict = -1;          // verification: 0 valid 1 invalid 2 bad key 3 context
};
struct OpInst {
  std::string name;   // e.g. e25519.sign
  std::string text;
  std::vector<Arg> in, out, scr;
  std::function<u64(uint8_t** in, uint8_t** out, uint8_t** scr)> call;
  std::function<Expect()> model;
  const Expect& expect();    // memoised over the life of the process
  int vret = 0;              // how to widen: 0 int 1 void
};
typedef std::shared_ptr<OpInst> Op;
Op make_op(const Line& l);

// One execution of an operation in simulated memory.
struct Placed {
  unsigned null = 0;  // empty inputs passed as a null pointer
  Op op;
  std::vector<Buf> in, out, scr;
  std::vector<Bytes> before;      // outputs
  u64 ret = 0;
  GuardResult g{OC_OK, 0, nullptr};
  bool done = false;
  // pl: where the buffers lie; fill: prior content of outputs and surroundings
  void put(const Op& o, u64 pl, unsigned fill, bool readonly_inputs, const std::string& at = "");  // at: e all at the end of a page, s all at the start
  void call_raw();                // unguarded
  void run();                     // guarded
  void release();                 // inputs writable again
  // throws Viol on any deviation; what: word for the message
  void check(const std::string& what, bool need_result = true);
};
u64 op_place_seed(const Line& l);
// place, run and check one line: the common way
void run_op_line(const Line& l, const std::string& what);

// public-value helpers
Bytes model_pub(const std::string& scheme, const Bytes& sk);

// constants of the API
enum { V_OK = 2, V_INVALID = 3, V_PUBKEY = 4, V_CONTEXT = 5 };

// ---------------------------------------------------------------- generators
struct Pool {
  std::vector<std::string> k32, k57, k56, msg, ctx, pt, fe25519, fe448;
};
Pool make_pool(Rng& r, int nkeys, bool bigmsg);
std::string gen_msg(Rng& r, bool big);
std::string gen_ctx(Rng& r);
// kinds: bit mask
enum { G_ED25519 = 1, G_ED448 = 2, G_X = 4, G_H2C = 8, G_HASH = 16, G_FP = 32, G_ALL = 63 };
std::string gen_data(Rng& r, size_t n);
std::string gen_operand(Rng& r, int f448);
std::string gen_ladder_value(Rng& r, int f448);
std::string gen_target(Rng& r, int f448);
void gen_related(Rng& r, int f448, const std::string& o, std::string& a, std::string& b);
ref::Forger forger(const std::string& t);
std::string gen_forger(Rng& r, size_t n);
bool fp_supports(int f448, const std::string& engine, const std::string& op);
Line gen_op(Rng& r, const Pool& p, unsigned kinds, bool refusals);
std::string tweak1(Rng& r, size_t nbytes);
