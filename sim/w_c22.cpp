// C22: an observer beside the call. The victim executes one instruction at a
// time; between any two instructions the observer sees which instruction ran
// and which addresses it touched (simulated time is the number of
// instructions). At drawn instants the observer also calls the library itself.
// What it sees must be the same for any two secrets.
#include <dlfcn.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <algorithm>
#include "aimed.hpp"
#include "ops.hpp"
using std::string;

extern "C" {
extern unsigned vs_flags;
extern char vs_tramp_ret[];
extern char __start_libtext[], __stop_libtext[];
extern char __executable_start[], _end[];
}
extern bool g_tr_on;   // trace_rt.cpp
void tr_see(u64 pc, u64 addr);
// ------------------------------------------------------------------ operands
struct Opd { int8_t base, index, vec, used; int32_t scale; int64_t disp; };
static std::vector<Opd> g_opd;
static std::vector<std::pair<u64, u64>> g_plt;
static void load_operands() {
  if (!g_opd.empty()) return;
  u64 lo = (u64)__start_libtext, hi = (u64)__stop_libtext;
  g_opd.assign(hi - lo + 1, Opd{-1, -1, 0, 0, 1, 0});
  char exe[4096];
  ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 5);
  if (n < 0) n = 0;
  strcpy(exe + n, ".mem");
  FILE* f = fopen(exe, "r");
  if (!f) { fprintf(stderr, "sim: no operand table\n"); _exit(90); }
  char k;
  long long a, b, c, d, e;
  int v;
  char line[200];
  while (fgets(line, sizeof line, f)) {
    k = line[0];
    if (k == 'P' && sscanf(line + 1, "%lld %lld", &a, &b) == 2) g_plt.push_back({(u64)a, (u64)(a + b)});
    if (k == 'M' && sscanf(line + 1, "%lld %lld %lld %lld %lld %d", &a, &b, &c, &d, &e, &v) == 6 && (u64)a >= lo && (u64)a < hi)
      g_opd[(u64)a - lo] = Opd{(int8_t)b, (int8_t)c, (int8_t)v, 1, (int32_t)d, e};
  }
  fclose(f);
}
// ------------------------------------------------------------------ the observer
struct Seen { u64 pc, addr; };
static const size_t CAP = 6u << 20;
static Seen* g_ref;
static size_t g_refn, g_n;
static bool g_recording, g_diverged, g_overflow;
static size_t g_div_at;
static Seen g_div_got, g_div_ref;
static u64 g_steps;              // all instructions of the library and what it calls
static enum { IN_LIB, IN_LIBC, IN_SEAM } g_where;
static std::vector<u64> g_wake;  // instants at which the observer acts
static size_t g_wakei;
static const std::function<void()>* g_act;
static const u64 TF = 0x100;
static void see(u64 pc, u64 addr) {
  if (g_recording) {
    if (g_n >= CAP) { g_overflow = true; return; }
    g_ref[g_n].pc = pc;
    g_ref[g_n].addr = addr;
  } else if (!g_diverged) {
    if (g_n >= g_refn || g_ref[g_n].pc != pc || g_ref[g_n].addr != addr) {
      g_diverged = true;
      g_div_at = g_n;
      g_div_got = Seen{pc, addr};
      g_div_ref = g_n < g_refn ? g_ref[g_n] : Seen{0, 0};
    }
  }
  g_n++;
}
static void wake_up() {
  while (g_wakei < g_wake.size() && g_steps >= g_wake[g_wakei]) {
    g_wakei++;
    if (g_act) { auto w = g_where; bool t = g_tr_on; g_tr_on = false; (*g_act)(); g_tr_on = t; g_where = w; }
  }
}
void tr_see(u64 pc, u64 addr) {
  g_steps++;
  see(pc, addr);
  wake_up();
}
static bool in_plt(u64 pc) { for (auto& p : g_plt) if (pc >= p.first && pc < p.second) return true; return false; }
static const int GREG[16] = {REG_RAX, REG_RCX, REG_RDX, REG_RBX, REG_RSP, REG_RBP, REG_RSI, REG_RDI, REG_R8, REG_R9, REG_R10, REG_R11, REG_R12, REG_R13, REG_R14, REG_R15};
static bool on_step(int sig, siginfo_t*, void* ucv) {
  if (sig != SIGTRAP) return false;
  ucontext_t* uc = (ucontext_t*)ucv;
  greg_t* g = uc->uc_mcontext.gregs;
  u64 pc = (u64)g[REG_RIP];
  if (pc == (u64)vs_tramp_ret) { g[REG_EFL] &= ~TF; return true; }
  g_steps++;
  if (pc >= (u64)__start_libtext && pc < (u64)__stop_libtext) {
    g_where = IN_LIB;
    const Opd& o = g_opd[pc - (u64)__start_libtext];
    u64 ea = 0;
    if (o.used) {
      ea = (u64)o.disp + 1;
      if (o.base >= 0) ea += (u64)g[GREG[(int)o.base]];
      if (o.index >= 0 && !o.vec) ea += (u64)g[GREG[(int)o.index]] * (u64)o.scale;
      if (o.index >= 0 && o.vec && uc->uc_mcontext.fpregs) {
        const char* fp = (const char*)uc->uc_mcontext.fpregs;
        int r = o.index & 15;
        ea = mix64(ea ^ hash_bytes(fp + 160 + 16 * r, 16));
        if (*(const uint32_t*)(fp + 464) == 0x46505853u) ea = mix64(ea ^ hash_bytes(fp + 576 + 16 * r, 16));
      }
    }
    see(pc, ea);
    wake_up();
    return true;
  }
  if (pc >= (u64)__executable_start && pc < (u64)_end) {
    if (!in_plt(pc)) g_where = IN_SEAM;
    return true;
  }
  if (g_where == IN_LIB) {
    // a block function: its arguments decide what it touches
    g_where = IN_LIBC;
    see((u64)g[REG_RDI], (u64)g[REG_RDX]);
    see((u64)g[REG_RSI], 0);
  }
  if (g_where == IN_LIBC) see(pc, 0);
  return true;
}
static string place_of(u64 pc) {
  if (pc >= (u64)__start_libtext && pc < (u64)__stop_libtext) return fmt("library+0x%llx", (unsigned long long)(pc - (u64)__start_libtext));
  return pc < 0x10000 ? "the end" : "the C library";
}
// ------------------------------------------------------------------ plans
static const char* FP_OPS[] = {"add", "sub", "mul", "sqr", "inv", "neg", "ngz", "cmv", "copy", "addsub", "mul2", "sqr2", "a24", "poly", "imul", "isqr", "nfast", "lar", "inter"};
static string secret(Rng& r, size_t n) {
  u64 k = r.below(12);
  if (k >= 10) {
    // random but for a span of zeros or ones (one word, or several)
    Bytes b(n);
    for (auto& x : b) x = (uint8_t)r.next();
    size_t w = (size_t)r.pickn({1, 4, 8, 8, 16, 24}), at = r.chance(70) ? r.below(n / 8 + 1) * 8 : r.below(n);
    uint8_t f = k == 10 ? 0 : 0xff;
    for (size_t i = at; i < n && i < at + w; i++) b[i] = f;
    return "h:" + hex(b);
  }
  if (k == 0) return fmt("z:%zu", n);
  if (k == 1) return fmt("f:%zu", n);
  if (k == 2) { Bytes b(n); b[r.below(n)] = (uint8_t)(1 << r.below(8)); return "h:" + hex(b); }
  if (k == 3) { Bytes b(n, (uint8_t)r.next()); return "h:" + hex(b); }
  if (k == 4) { Bytes b(n); for (auto& x : b) x = (uint8_t)((r.below(16) << 4) | 8); return "h:" + hex(b); }
  return fmt("r:%llx:%zu", (unsigned long long)r.below(1 << 30), n);
}
static Line gen_call(Rng& r, string& key, size_t& len, string& rare) {
  Line l("op");
  u64 c = r.below(100);
  key = "sk";
  if (c < 52) {
    bool e4 = r.chance(40);
    size_t K = len = e4 ? 57 : 32;
    int v = e4 ? 1 + (int)r.below(2) : (int)r.below(3);
    bool kg = r.chance(35);
    l.set("op", string(e4 ? "e448" : "e25519") + (kg ? ".keygen" : ".sign")).set("v", v);
    if (!kg) {
      l.set("pkl", fmt("r:%llx:%zu", (unsigned long long)r.below(1000), K)).set("m", fmt("r:%llx:%llu", (unsigned long long)r.below(1000), (unsigned long long)r.below(r.chance(80) ? 300 : 1200)));
      if (e4 || v) l.set("c", fmt("r:%llx:%llu", (unsigned long long)r.below(1000), (unsigned long long)r.below(256)));
      if (r.chance(20)) {  // with the first key, the nonce is one of a rare form
        l.set("v", e4 ? 1 : 0).set("m", e4 ? aimed(r, aimed_n4, 16) : aimed(r, aimed_n5, 16));
        if (e4 || v) l.set("c", "z:0");
        rare = fmt("r:1:%zu", K);
      }
    } else if (r.chance(40)) rare = e4 ? aimed(r, aimed_k4, 57) : aimed(r, aimed_k5, 32);
  } else if (c < 82) {
    int e = (int)r.below(3);
    len = e == 2 ? 56 : 32;
    key = "k";
    bool kg = r.chance(35);
    l.set("op", kg ? "x.keygen" : "x.shared").set("e", e);
    if (!kg) l.set("u", r.chance(60) ? fmt("r:%llx:%zu", (unsigned long long)r.below(1000), len) : secret(r, len));
  } else if (c < 91) {
    key = "m";
    len = r.chance(50) ? r.pickn({1, 32, 57, 111, 112, 128, 136, 137, 168}) : r.range(1, 400);
    u64 h = r.below(5);
    if (h == 4) { if (r.chance(70)) l.set("op", "h2c").set("e", r.below(2)); else l.set("op", "h2f").set("e", r.below(2)); }
    else if (h == 0) l.set("op", "sha2").set("b", r.chance(50) ? 512 : 384);
    else if (h == 1) l.set("op", "sha3").set("b", 256);
    else if (h == 2) l.set("op", "shake").set("b", r.chance(50) ? 128 : 256).set("d", r.range(1, 200));
    else l.set("op", "sha2w").set("m2", fmt("r:7:%zu", len)).set("k", r.below(2));
    if (h < 3 && r.chance(50)) l.set("cuts", fmt("%llu", (unsigned long long)r.below(len + 1)));
  } else {
    int f = r.chance(50) ? 448 : 25519;
    string e = r.pick({"1f", "1r", "2r", "4r"});
    int lanes = e[0] - '0';
    string o = FP_OPS[r.below(sizeof FP_OPS / sizeof *FP_OPS)];
    if (!fp_supports(f == 448, e, o)) o = "mul";
    l.set("op", "fp").set("f", f).set("e", e).set("o", o);
    len = (size_t)(f == 448 ? 56 : 32) * lanes;
    if (r.chance(50)) l.set("lo", r.range(1, 3));
    string rare2;
    if (r.chance(50)) { rare = rare2 = "h:"; for (int i = 0; i < lanes; i++) { rare += gen_operand(r, f == 448).substr(2); rare2 += gen_operand(r, f == 448).substr(2); } }
    else rare2 = secret(r, len);
    if (o == "cmv") { l.set("a", secret(r, len)).set("b", secret(r, len)); key = "k"; len = 0; }
    else if (r.chance(50)) { key = "a"; l.set("b", rare2); }
    else { key = "b"; l.set("a", rare2); }
  }
  if (r.chance(1)) l.set("step", 1);
  if (g_nlibs > 1 && r.chance(25)) l.set("lib", r.range(1, g_nlibs - 1));
  l.set("pl", r.below(1000));
  return l;
}
static Plan gen(Rng& r) {
  Plan p;
  string key, rare;
  size_t len;
  Line l = gen_call(r, key, len, rare);
  l.verb = "victim";
  l.set("secret", key);
  int n = len ? (int)r.range(2, 4) : 2;
  if (r.chance(30)) {
    // what happened before the call, with one of the secrets or another one
    Line b("before");
    b.set("with", r.below(n + 1)).set("n", r.range(1, 3));
    p.push_back(b);
  }
  p.push_back(l);
  for (int i = 0; i < n; i++) p.push_back(Line("with").set("s", !len ? std::to_string(i) : !i && !rare.empty() ? rare : secret(r, len)));
  if (r.chance(40)) {
    Line o("observer");
    string t;
    int k = (int)r.range(1, 4);
    for (int i = 0; i < k; i++) t += (i ? "," : "") + std::to_string(r.below(2) ? r.below(3000) : r.below(150000));
    o.set("at", t).set("calls", r.chance(50) ? "same" : "other").set("with", r.below(n));
    p.push_back(o);
  }
  return p;
}
// ------------------------------------------------------------------ runs
static Op victim(const Line& v, const string& s) {
  Line l = v;
  l.verb = "op";
  string key = v.get("secret", "sk");
  l.set(key, s);
  return make_op(l);
}
struct Scene { Line v, before, obs; std::vector<string> secrets; std::vector<u64> wake; };
// what the observer sees of the calls with the given secrets: 0 the same,
// k the k-th differs from the first, -1 a call did not end
static int watch(const Scene& sc, const std::vector<string>& secrets, int lib, bool step) {
  Line v = sc.v;
  v.set("lib", lib);
  string name;
  for (size_t round = 0; round <= secrets.size(); round++) {
    // round 0 only warms the process up
    size_t i = round ? round - 1 : 0;
    libstate_restore();
    arena_reset();
    heap_reset(HeapCfg());
    Op o = victim(v, secrets[i]);
    name = o->name;
    if (!sc.before.verb.empty()) {
      size_t w = sc.before.num("with");
      Op b = victim(v, w < sc.secrets.size() ? sc.secrets[w] : sc.secrets[0]);
      for (u64 k = 0; k < sc.before.num("n", 1); k++) {
        Placed q;
        q.put(b, 5000 + v.num("pl"), 0xAA, true);
        q.run();
        q.release();
        R->fault("history_before_call");
      }
    }
    Placed pl, ob;
    pl.put(o, v.num("pl"), 0xAA, true);
    std::function<void()> act;
    if (!sc.wake.empty()) {
      Op oo = sc.obs.get("calls") == "same" ? victim(v, sc.secrets[sc.obs.num("with") % sc.secrets.size()]) : make_op(Line("op").set("op", "sha2").set("m", "r:1:150"));
      ob.put(oo, 9000 + v.num("pl"), 0xAA, true);
      act = [&] {
        unsigned f = vs_flags;
        vs_flags = 0x202;
        ob.run();
        vs_flags = f;
        R->fault("observer_called_library");
      };
    }
    g_wake = sc.wake;
    g_wakei = 0;
    g_act = sc.wake.empty() ? nullptr : &act;
    g_recording = round == 1;
    g_diverged = g_overflow = false;
    g_n = g_steps = 0;
    g_where = IN_SEAM;
    if (round && step) {
      g_trap = on_step;
      vs_flags = 0x302;
    }
    g_tr_on = round && !step;
    pl.run();
    g_tr_on = false;
    vs_flags = 0x202;
    g_trap = nullptr;
    if (round == 1) g_refn = g_n;
    if (g_overflow) { fprintf(stderr, "sim: too many observations\n"); _exit(91); }
    bool ended = pl.g.oc == OC_OK;
    pl.release();
    if (!sc.wake.empty()) ob.release();
    if (!round) continue;
    R->st->steps += g_steps;
    R->st->ops[name]++;
    R->probe(step ? "stepped_trace" : "block_trace");
    R->ev(fmt("%s secret %zu: %llu %s", name.c_str(), i, (unsigned long long)g_steps, step ? "instructions" : "blocks and accesses"));
    R->order(fmt("%s %llu %zu", name.c_str(), (unsigned long long)g_steps, sc.wake.size()));
    if (!ended) { R->ev("ended with " + pl.g.text()); return -1; }
    if (round > 1 && !g_diverged && g_n != g_refn) { g_diverged = true; g_div_at = g_n; g_div_got = Seen{0, 0}; g_div_ref = g_n < g_refn ? g_ref[g_n] : Seen{0, 0}; }
    if (round > 1 && g_diverged) return (int)i;
  }
  return 0;
}
static void exec(const Plan& p) {
  load_operands();
  if (!g_ref) {
    g_ref = (Seen*)mmap(nullptr, CAP * sizeof(Seen), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (g_ref == MAP_FAILED) { fprintf(stderr, "sim: no room for the observations\n"); _exit(91); }
  }
  Scene sc;
  for (auto& l : p) {
    if (l.verb == "victim") sc.v = l;
    else if (l.verb == "with") sc.secrets.push_back(l.get("s"));
    else if (l.verb == "before") sc.before = l;
    else if (l.verb == "observer") sc.obs = l;
  }
  if (sc.v.verb.empty() || sc.secrets.size() < 2) return;
  if (!sc.obs.verb.empty()) for (auto& w : split(sc.obs.get("at", "0"), ',')) sc.wake.push_back(strtoull(w.c_str(), 0, 10));
  std::sort(sc.wake.begin(), sc.wake.end());
  std::vector<string> two = {sc.secrets[0], sc.secrets[1]};
  bool step = sc.v.num("step");
#ifdef HAVE_TR
  int k = watch(sc, sc.secrets, 3, false);
  if (k > 0) {
    // seen in the instrumented copy: does the shipped code show it as well?
    step = true;
    two[1] = sc.secrets[k];
    R->probe("difference_in_instrumented_copy");
  }
#endif
  if (!step) return;
  int lib = (int)sc.v.num("lib");
  if (watch(sc, two, lib, true) <= 0) return;
  string how = g_div_got.pc == g_div_ref.pc ? fmt("at %s the addresses 0x%llx and 0x%llx are accessed", place_of(g_div_got.pc).c_str(), (unsigned long long)g_div_ref.addr - 1, (unsigned long long)g_div_got.addr - 1)
                                            : "execution goes on at " + place_of(g_div_ref.pc) + " and at " + place_of(g_div_got.pc);
  string name = sc.v.get("op");
  R->fail("secret-visible:" + name, fmt("what %s does depends on its secret input \"%s\": for %s and %s the observer sees the same %zu instructions, then %s; in all %zu and %zu [%s]", name.c_str(), sc.v.get("secret", "sk").c_str(),
          two[0].substr(0, 130).c_str(), two[1].substr(0, 130).c_str(), g_div_at, how.c_str(), g_refn, g_n, sc.v.text().substr(0, 250).c_str()));
}
World w_c22() { return {"c22", gen, exec}; }
