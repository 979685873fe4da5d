// C12: replicas apply one log, each with implementations of its own choice.
#include <unistd.h>
#include <algorithm>
#include "huge.hpp"
#include "lib.hpp"
#include "net.hpp"
#include "ops.hpp"
using std::string;

// ------------------------------------------------------------------ state
struct State {
  std::vector<Bytes> reg[6];  // 0: 32 bytes, 1: 56 bytes, 2: 57 bytes, 3: messages, 4: points, 5: codes
  State() {
    static const size_t n[6] = {32, 56, 57, 20, 64, 4};
    for (int c = 0; c < 6; c++) for (int i = 0; i < 4; i++) reg[c].push_back(rnd_bytes(c * 4 + i + 1, n[c]));
  }
  u64 hash() const { u64 h = 1; for (auto& c : reg) for (auto& b : c) { h = hash_bytes(b.data(), b.size(), h) + b.size(); } return h; }
};
static const Bytes& R_(const State& s, const Line& l, const char* k, int c) { return s.reg[c][l.num(k) & 3]; }
static string H(const Bytes& b) { return "h:" + hex(b); }

// Runs one operation; returns the outputs and the return code.
struct Out { u64 ret; std::vector<Bytes> o; };
static Out run1(const Line& l, const string& who) {
  Op o = make_op(l);
  Placed p;
  p.put(o, l.num("pl"), (unsigned)l.num("fill", 0xAA), true);
  g_poison.on = true;
  g_poison.seed = l.num("pl");
  p.run();
  g_poison.on = false;
  R->st->steps++;
  R->st->ops[o->name]++;
  p.check(who, false);
  Out r;
  r.ret = o->vret ? 0 : (uint32_t)p.ret;
  for (auto& b : p.out) r.o.push_back(Bytes(b.p, b.p + b.len));
  p.release();
  return r;
}
static Bytes part_of(const Bytes& b, size_t at, size_t n) { return Bytes(b.begin() + at, b.begin() + at + n); }
static bool can(int f, const string& e, const string& o) { return fp_supports(f, e, o); }
// the chosen implementation of a field command on one element
static Bytes field(int f, string o, const Bytes& a, const Bytes& b, u64 k, Rng& r, int lib, string& how) {
  size_t B = f ? 56 : 32;
  Bytes x = a, y = b;
  string want = o;
  std::vector<std::pair<string, string>> opts;  // engine, operation
  for (const char* e : {"1f", "1r", "2r", "4r"}) {
    if (can(f, e, o)) opts.push_back({e, o});
    if ((o == "add" || o == "sub") && can(f, e, "addsub")) opts.push_back({e, "addsub"});
    if ((o == "add" || o == "sub") && can(f, e, "nfast")) opts.push_back({e, "nfast"});
    if (o == "mul" && can(f, e, "imul")) opts.push_back({e, "imul"});
    if (o == "sqr" && can(f, e, "isqr")) opts.push_back({e, "isqr"});
    if (o == "mul" && can(f, e, "mul2")) opts.push_back({e, "mul2"});
    if (o == "sqr" && can(f, e, "sqr2")) opts.push_back({e, "sqr2"});
    if (o == "sqr") opts.push_back({e, "mul"});
    if (o == "neg" && can(f, e, "ngz")) opts.push_back({e, "ngz"});
    if (o == "neg") opts.push_back({e, "sub"});
    if (o == "a24") opts.push_back({e, "mul"});
  }
  auto c = opts[r.below(opts.size())];
  string op = c.second;
  if (o == "sqr" && op == "mul") y = a;
  if (o == "neg" && op == "sub") { y = a; x.assign(B, 0); }
  if (o == "a24" && op == "mul") { y.assign(B, 0); u64 m = f ? 39082 : 121666; memcpy(&y[0], &m, 8); }
  size_t N = c.first[0] - '0', pos = r.below(N);
  if (op == "ngz") pos = N == 2 ? 0 : 2;  // the lane that is negated
  Bytes va, vb;
  for (size_t i = 0; i < N; i++) {
    Bytes ra = i == pos ? x : rnd_bytes(r.next(), B), rb = i == pos ? y : rnd_bytes(r.next(), B);
    va.insert(va.end(), ra.begin(), ra.end());
    vb.insert(vb.end(), rb.begin(), rb.end());
  }
  Line l("op");
  l.set("op", "fp").set("f", f ? 448 : 25519).set("e", c.first).set("o", op).set("a", H(va)).set("b", H(vb)).set("k", k).set("lib", (u64)lib).set("pl", r.below(1000)).set("lo", r.below(4));
  how = c.first + "." + op + fmt("[%zu] build %d", pos, lib);
  Out v = run1(l, how);
  if (op == "cmp" || op == "sgn") return Bytes{v.o[0][4 * pos]};
  if ((op == "addsub" || op == "nfast") && want == "sub") return part_of(v.o[1], pos * B, B);
  if (op == "mul2" && r.chance(50)) return part_of(v.o[1], 0, B);
  return part_of(v.o[0], pos * B, B);
}
static string some_cuts(Rng& r, size_t n) {
  string s;
  for (u64 k = r.range(1, 4); k; k--) s += (s.empty() ? "" : ",") + std::to_string(r.below(n + 2));
  return s;
}
// applies a command; the result does not depend on r and lib if the property holds
static Bytes apply(State& s, const Line& c, Rng& r, int lib, string& how) {
  string k = c.get("do");
  Line l("op");
  l.set("lib", (u64)lib).set("pl", r.below(1000)).set("fill", r.below(256));
  Bytes res;
  int cls = 0;
  how = fmt("build %d", lib);
  if (k == "set") {
    cls = (int)(c.num("cls") % 4);
    res = spec_bytes(c.get("data", "z:0"));
    if (cls < 3) res.resize(cls == 0 ? 32 : cls == 1 ? 56 : 57);
  } else if (k == "fp") {
    int f = c.num("f") == 448;
    string o = c.get("o", "mul");
    bool code = o == "cmp" || o == "sgn";
    auto operand = [&](const char* reg, const char* lit) { if (!c.has(lit)) return R_(s, c, reg, f); Bytes v = spec_bytes(c.get(lit)); v.resize(f ? 56 : 32); return v; };
    res = field(f, o, operand("a", "da"), operand("b", "db"), c.num("k"), r, lib, how);
    cls = code ? 5 : f;
  } else if (k == "x") {
    int x4 = c.num("x4");
    int e = x4 ? 2 : (int)r.below(2);
    bool gen = c.num("gen");
    l.set("op", gen ? "x.keygen" : "x.shared").set("e", (u64)e).set("k", H(R_(s, c, "a", x4)));
    if (!gen) l.set("u", H(R_(s, c, "b", x4)));
    how += fmt(" engine %d", e);
    res = run1(l, how).o[0];
    cls = x4;
  } else if (k == "ed") {
    int e4 = c.num("e4");
    string w = c.get("w", "sign"), pre = e4 ? "e448." : "e25519.";
    l.set("op", pre + w).set("v", c.num("v")).set("sk", H(R_(s, c, "a", e4 ? 2 : 0)));
    if (w != "keygen") l.set("m", H(R_(s, c, "m", 3))).set("c", H(part_of(R_(s, c, "n", 3), 0, std::min<size_t>(R_(s, c, "n", 3).size(), c.num("cl")))));
    if (w == "sign") l.set("pkl", H(R_(s, c, "b", e4 ? 2 : 0)));
    if (w == "verify") {
      if (c.num("own")) l.set("m", H(R_(s, c, "m", 3)));
      if (c.has("x")) l.set("sigx", c.get("x"));
      if (c.num("craft")) l.set("craft", H(R_(s, c, "b", e4 ? 2 : 0)));
    }
    Out v = run1(l, how);
    if (w == "verify") { res = Bytes{(uint8_t)v.ret}; cls = 5; }
    else if (w == "keygen") { res = v.o[0]; cls = e4 ? 2 : 0; }
    else { res = v.o[0]; cls = 3; }
  } else if (k == "hash") {
    Bytes m = R_(s, c, "m", 3);
    string a = c.get("alg", "sha512");
    cls = 3;
    l.set("m", H(m));
    if (a == "sha512" && r.chance(50)) {
      size_t pos = r.below(2);
      l.set("op", "sha2w").set(pos ? "m2" : "m", H(m)).set(pos ? "m" : "m2", H(rnd_bytes(r.next(), m.size())));
      how += fmt(" two lanes[%zu]", pos);
      res = run1(l, how).o[pos];
    } else {
      if (a == "sha512" || a == "sha384") l.set("op", "sha2").set("b", a == "sha512" ? 512 : 384);
      else if (a == "sha3") l.set("op", "sha3").set("b", 256);
      else l.set("op", "shake").set("b", a == "shake128" ? 128 : 256).set("d", std::min<u64>(c.num("d", 64), 600));
      if (r.chance(70)) { l.set("cuts", some_cuts(r, m.size())); how += " pieces " + l.get("cuts"); }
      res = run1(l, how).o[0];
    }
  } else if (k == "h2c") {
    u64 e = r.below(2);
    l.set("op", "h2c").set("e", e).set("m", H(R_(s, c, "m", 3)));
    how += fmt(" engine %d", (int)e);
    Bytes P = run1(l, how).o[0];
    for (int i = 0; i < 2; i++) { Bytes x = ref::F1::from(&P[32 * i]).bytes(); res.insert(res.end(), x.begin(), x.end()); }
    cls = 4;
  } else if (k == "m2c") {
    u64 e = r.below(2), pos = e ? r.below(2) : 0;
    Bytes u = R_(s, c, "a", 0), other = rnd_bytes(r.next(), 32), v;
    for (u64 i = 0; i <= e; i++) { const Bytes& x = i == pos ? u : other; v.insert(v.end(), x.begin(), x.end()); }
    l.set("op", "m2c").set("e", e).set("u", H(v));
    how += fmt(" %d lanes[%d]", (int)e + 1, (int)pos);
    Bytes P = run1(l, how).o[0];
    ref::F1 q[4];
    for (int i = 0; i < 4; i++) q[i] = ref::F1::from(&P[32 * (e ? 2 * i + pos : i)]);
    bool t = q[0] * q[1] == q[2] * q[3];
    ref::F1 zi = q[2].inv();
    for (int i = 0; i < 2; i++) { Bytes x = (q[i] * zi).bytes(); res.insert(res.end(), x.begin(), x.end()); }
    if (!t) res[0] ^= 1, how += " (its T is not XY/Z)";
    cls = 4;
  } else if (k == "h2f") {
    u64 e = r.below(2), pre = c.num("pre") & 1;
    l.set("op", "h2f").set("e", e).set("m", H(R_(s, c, "m", 3)));
    if (!e) l.set("pre", pre);
    how += fmt(" %d lanes", (int)e + 1);
    res = run1(l, how).o[e ? pre : 0];
    cls = 0;
  } else if (k == "pt") {
    bool eq = c.num("eq");
    l.set("op", eq ? "areeq" : "oncurve").set("p", H(R_(s, c, "a", 4)));
    if (eq) l.set("q", H(R_(s, c, "b", 4)));
    res = Bytes{(uint8_t)run1(l, how).ret};
    cls = 5;
  }
  s.reg[cls][c.num("dst") & 3] = res;
  return res;
}
// ------------------------------------------------------------------ generator
static Line gen_cmd(Rng& r) {
  Line c("cmd");
  u64 k = r.below(100);
  auto ab = [&] { c.set("a", r.below(4)).set("b", r.below(4)); };
  if (k < 16) {
    u64 cls = r.below(4);
    size_t n = cls == 0 ? 32 : cls == 1 ? 56 : cls == 2 ? 57 : 0;
    c.set("do", "set").set("cls", cls).set("data", cls == 3 ? gen_msg(r, false) : cls < 2 && r.chance(60) ? gen_operand(r, (int)cls) : gen_data(r, n));
  } else if (k < 52) {
    c.set("do", "fp").set("f", r.chance(50) ? 448 : 25519).set("o", r.pick({"add", "sub", "mul", "mul", "sqr", "inv", "neg", "cmp", "sgn", "cmv", "a24", "poly", "id", "srt"}));
    ab();
    if (r.chance(15)) c.set("b", c.num("a"));
    c.set("k", r.below(2));
    if (r.chance(30)) {
      int f = c.num("f") == 448;
      string a = gen_operand(r, f), b = gen_operand(r, f);
      gen_related(r, f, c.get("o"), a, b);
      c.set("da", a).set("db", b);
    }
  } else if (k < 66) { c.set("do", "x").set("x4", r.chance(40)).set("gen", r.chance(35)); ab(); }
  else if (k < 80) {
    bool e4 = r.chance(50);
    c.set("do", "ed").set("e4", e4).set("w", r.pick({"keygen", "sign", "sign", "verify", "verify"})).set("v", e4 ? 1 + r.below(2) : r.below(3)).set("m", r.below(4)).set("n", r.below(4)).set("cl", r.below(256));
    ab();
    if (c.get("w") == "verify") { if (r.chance(25)) c.set("x", tweak1(r, e4 ? 114 : 64)); if (r.chance(20)) c.set("craft", 1); }
  } else if (k < 89) c.set("do", "hash").set("m", r.below(4)).set("alg", r.pick({"sha512", "sha512", "sha384", "sha3", "shake128", "shake256"})).set("d", r.below(300));
  else if (k < 92) c.set("do", "h2c").set("m", r.below(4));
  else if (k < 94) c.set("do", "m2c").set("a", r.below(4));
  else if (k < 97) c.set("do", "h2f").set("m", r.below(4)).set("pre", r.below(2));
  else { c.set("do", "pt").set("eq", r.below(2)); ab(); }
  c.set("dst", r.below(4));
  return c;
}
static Plan gen(Rng& r) {
  Plan p;
  int n = (int)r.range(10, 50), nodes = (int)r.range(2, 4);
  p.push_back(Line("net").set("seed", r.below(1 << 30)).set("loss", r.chance(70) ? r.below(40) : 0).set("dup", r.chance(60) ? r.below(40) : 0).set("delay", r.pickn({20, 200, 2000, 8000})));
  for (int i = 0; i < nodes; i++) p.push_back(Line("replica").set("id", (u64)i).set("seed", r.below(1 << 30)).set("mix", r.below(3)));
  for (u64 k = r.below(5); k; k--) p.push_back(Line("crash").set("id", r.below(nodes)).set("t", r.below(n * 900 + 1)).set("down", r.range(50, 6000)));
  for (u64 k = r.below(3); k; k--) p.push_back(Line("cut").set("id", r.below(nodes)).set("t", r.below(n * 900 + 1)).set("len", r.range(100, 9000)));
  for (int i = 0; i < n; i++) p.push_back(gen_cmd(r));
  return p;
}
// ------------------------------------------------------------------ the system
struct Replica {
  int id = 0;
  u64 seed = 0, mix = 0;
  // durable
  std::vector<std::pair<u64, Line>> disk;  // log, written in order
  size_t synced = 0;
  State snap;
  u64 snap_at = 0;
  // volatile
  State s;
  u64 applied = 0;
  std::map<u64, Line> pending;
  int lib = 0;
  Rng r{0};
};
static void exec(const Plan& p) {
  Net net;
  std::vector<Line> log;
  std::map<int, Replica> reps;
  for (auto& l : p) {
    if (l.verb == "net") { net.seed = l.num("seed"); net.loss = (unsigned)l.num("loss"); net.dup = (unsigned)l.num("dup"); net.delay = std::max<u64>(1, l.num("delay", 100)); }
    else if (l.verb == "replica") { Replica& x = reps[(int)l.num("id")]; x.id = (int)l.num("id"); x.seed = l.num("seed"); x.mix = l.num("mix"); }
    else if (l.verb == "cmd") log.push_back(l);
  }
  if (reps.size() < 2) { for (int i = 0; i < 2; i++) if (!reps.count(i)) { reps[i].id = i; reps[i].seed = 77 + i; reps[i].mix = 1; } }
  u64 total = log.size();
  net.quiet_at = total * 900 + 12000;
  struct Seen { bool set = false; u64 h; string how; Bytes res; };
  std::vector<Seen> seen(total + 1);
  auto start = [&](Replica& x) {
    x.r = Rng(x.seed ^ mix64(net.boot[x.id]));
    x.lib = (int)x.r.below(g_nlibs);
    x.s = x.snap;
    x.applied = x.snap_at;
    x.pending.clear();
  };
  auto step = [&](Replica& x, const Line& c, bool replayed) {
    int lib = x.mix ? (int)x.r.below(g_nlibs) : x.lib;
    string how;
    Bytes res = apply(x.s, c, x.r, lib, how);
    x.applied++;
    Seen& e = seen[x.applied];
    u64 h = x.s.hash();
    R->order(c.get("do") + how);
    R->ev(fmt("replica %d%s %llu %s: %016llx (%s)", x.id, replayed ? " replays" : "", (unsigned long long)x.applied, c.text().substr(0, 120).c_str(), (unsigned long long)h, how.c_str()));
    if (!e.set) { e.set = true; e.h = h; e.how = how; e.res = res; }
    else if (e.h != h)
      R->fail("diverged:" + c.get("do") + (c.get("do") == "fp" ? "." + c.get("o") : ""), fmt("after command %llu [%s] a replica using %s got %s, another using %s got %s", (unsigned long long)x.applied, c.text().substr(0, 200).c_str(), how.c_str(), hex(res).substr(0, 160).c_str(), e.how.c_str(), hex(e.res).substr(0, 160).c_str()));
  };
  // recovery: snapshot, then what reached the disk, with a new choice of implementations
  auto recover = [&](Replica& x) {
    start(x);
    std::vector<std::pair<u64, Line>> d(x.disk.begin(), x.disk.begin() + x.synced);
    for (auto& e : d) if (e.first == x.applied + 1) { step(x, e.second, true); R->probe("replayed_after_restart"); }
  };
  for (auto& x : reps) start(x.second);
  std::map<int, u64> acked;
  std::function<void(int)> offer;  // the sequencer sends what a replica misses
  std::function<void(Replica&)> drain = [&](Replica& x) {
    while (x.pending.count(x.applied + 1)) {
      Line c = x.pending[x.applied + 1];
      x.pending.erase(x.applied + 1);
      x.disk.push_back({x.applied + 1, c});
      step(x, c, false);
      if (x.r.chance(40)) x.synced = x.disk.size();
      if (x.r.chance(12)) { x.snap = x.s; x.snap_at = x.applied; x.synced = x.disk.size(); }
    }
    u64 a = x.applied;
    int id = x.id;
    net.send(id, -1, [&, id, a] { acked[id] = a; });
  };
  auto sent = [&](int id, u64 n) {
    net.send(-1, id, [&, id, n] {
      Replica& x = reps[id];
      if (n <= x.applied) { R->probe("duplicate_command_ignored"); return; }
      if (n != x.applied + 1) R->probe("command_out_of_order");
      x.pending[n] = log[n - 1];
      drain(x);
    });
  };
  u64 issued = 0;
  for (u64 i = 1; i <= total; i++) net.at(i * 900, [&, i] { issued = i; for (auto& x : reps) sent(x.first, i); });
  std::function<void()> tick = [&] {
    bool all = issued == total;
    for (auto& x : reps) {
      // replicas tell where they are, the sequencer fills the gap
      all &= net.up(x.first) && x.second.applied == total;
      if (!net.up(x.first)) continue;
      u64 a = x.second.applied;
      int id = x.first;
      net.send(id, -1, [&, id, a] { acked[id] = a; for (u64 k = a + 1; k <= std::min(issued, a + 8); k++) sent(id, k); });
    }
    if (!all) net.after(2500, tick);
  };
  net.after(2500, tick);
  for (auto& l : p) {
    if (l.verb == "crash" && reps.count((int)l.num("id"))) {
      int id = (int)l.num("id");
      u64 t = l.num("t"), down = l.num("down", 100);
      net.at(t, [&, id, down] {
        if (!net.up(id)) return;
        net.boot[id]++;
        R->fault("replica_crash");
        Replica& x = reps[id];
        if (x.synced < x.disk.size()) R->fault("unsynced_log_lost");
        x.disk.resize(x.synced);
        net.after(down, [&, id] { net.boot[id]++; R->fault("replica_restart"); recover(reps[id]); });
      });
    } else if (l.verb == "cut") net.cuts.push_back({(int)l.num("id"), l.num("t"), l.num("t") + l.num("len")});
  }
  net.run();
  for (auto& x : reps)
    if (x.second.applied != total || !net.up(x.first)) { fprintf(stderr, "sim: replica %d did not catch up (%llu of %llu)\n", x.first, (unsigned long long)x.second.applied, (unsigned long long)total); _exit(99); }
  R->ev(fmt("end at %llu us", (unsigned long long)net.now));
}
World w_c12() { return {"c12", gen, exec}; }

// ------------------------------------------------------------------ long messages
// One command on a message whose length passes the 32-bit boundaries, applied
// by two replicas with different implementations.
extern u64 g_run_index;
// About eight gigabytes of real memory: the vector engine copies the message
// twice (the heap refuses some of the copies in every other run).
static Plan gen_long(Rng& r) {
  Plan p;
  u64 n = (1ull << 32) + (g_run_index % 2 ? r.below(5000) : r.pickn({0, 1, 110, 126, 127, 128, 200})) - (g_run_index % 4 == 2 ? 2 : 0);
  Line l = Line("long").set("n", n).set("seed", r.below(1000)).set("la", r.below(3)).set("lb", r.below(3));
  if (g_run_index % 2) l.set("hf", r.below(2));
  p.push_back(l);
  return p;
}
static void exec_long(const Plan& p) {
  for (auto& l : p) {
    if (l.verb != "long") continue;
    if (!l.has("hf") && mem_available() < 12000) { R->probe("skipped_for_want_of_memory"); continue; }
    u64 n = l.num("n");
    Huge h(n + 4096, l.num("seed"));
    heap_cfg().huge = true;
    if (l.has("hf")) heap_cfg().fail = {l.num("hf")};
    Bytes pt[2];
    for (int e = 0; e < 2; e++) {
      const Lib* L = g_libs[l.num(e ? "lb" : "la") & 3];
      Buf o = place(9 + e, 64, true, 32, 0, 0x55);
      GuardResult g = guarded([&] { lib_call(L->h2c[e], (void*)o.p, (uint8_t*)h.base, (size_t)n); });
      if (g.oc != OC_OK) R->fail("call-died:long-h2c", fmt("hashing %llu bytes to the curve with the %s engine %s", (unsigned long long)n, e ? "vector" : "scalar", g.text().c_str()));
      string s = buf_check_surroundings(o);
      if (!s.empty()) R->fail("outside-output:long-h2c", s);
      for (int i = 0; i < 64; i += 32) for (uint8_t b : ref::F1::from(o.p + i).bytes()) pt[e].push_back(b);  // elements may be loosely reduced
      buf_free(o);
      R->ev(e ? "vector" : "scalar", pt[e]);
    }
    if (heap_live()) R->fail("leak:long-h2c", "hashing to the curve did not release its memory");
    heap_cfg().huge = false;
    if (pt[0] != pt[1]) R->fail("diverged:long-h2c", fmt("hashing %llu bytes to the curve: the scalar engine gives %s, the vector engine %s", (unsigned long long)n, hex(pt[0]).substr(0, 40).c_str(), hex(pt[1]).substr(0, 40).c_str()));
    R->probe("message_of_2^32_bytes");
    if (heap_failed()) R->fault("heap_refused");
    R->order(fmt("h2c %llu %d", (unsigned long long)n, (int)l.num("hf", 9)));
  }
}
World w_c12long() { return {"c12long", gen_long, exec_long}; }
