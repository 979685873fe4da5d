// C11: refused and accepted operations in every order.
#include "ops.hpp"
using std::string;

// public keys that are, or nearly are, no encoding of a point
string odd_key(Rng& r, bool e4) {
  size_t K = e4 ? 57 : 32;
  Bytes b(K, 0);
  u64 k = r.below(11);
  if (k == 10) { b = spec_bytes(r.chance(50) ? gen_operand(r, e4) : gen_target(r, e4)); b.resize(K); if (r.chance(50)) b[K - 1] |= 0x80; }
  else if (k == 0) b = rnd_bytes(r.next(), K);
  else if (k == 1) { b = rnd_bytes(r.next(), K); b[K - 1] &= e4 ? 0x80 : 0xff; }
  else if (k == 2) b[0] = (uint8_t)r.below(4);                    // tiny y, neutral element included
  else if (k == 3) { b[0] = (uint8_t)r.below(3); b[K - 1] = 0x80; }  // x = 0 with the sign set
  else {
    // around p: p-1, p, p+1, ... with and without the sign
    b.assign(K, 0xff);
    if (e4) { b[28] = 0xfe; b[56] = 0; if (r.chance(40)) b[0] = (uint8_t)(0xfc + r.below(4)); else if (r.chance(60)) { for (int i = 0; i < 28; i++) b[i] = 0; b[28] = 0xff; b[0] = (uint8_t)r.below(3); } }
    else { b[31] = 0x7f; b[0] = (uint8_t)(r.chance(70) ? 0xea + r.below(6) : 0xed + r.below(19)); }
    if (r.chance(25)) {  // a random piece, or one byte with a bit cleared
      if (r.chance(50)) { size_t at = r.below(K), n = r.chance(50) ? 1 : r.range(1, K); for (size_t i = at; i < at + n && i < K - 1; i++) b[i] = (uint8_t)r.next(); }
      else b[r.below(K - 1)] &= (uint8_t)~(1 << r.below(8));
    }
    if (r.chance(40)) b[K - 1] |= 0x80;
    if (e4 && k == 9) b[56] |= (uint8_t)(1 << r.below(7));
  }
  return "h:" + hex(b);
}
static Plan gen(Rng& r) {
  Plan p;
  Pool pool = make_pool(r, (int)r.range(1, 3), r.chance(3));
  int n = (int)r.range(6, 34);
  unsigned kinds = r.chance(25) ? G_ED25519 : r.chance(33) ? G_ED448 : r.chance(70) ? G_ED25519 | G_ED448 : G_ALL;
  unsigned bad = (unsigned)r.pickn({20, 50, 80, 95});
  u64 npl = r.range(1, 4);
  Line last;
  for (int i = 0; i < n; i++) {
    if (r.chance(3)) { p.push_back(Line("restart")); continue; }
    if (r.chance(3)) { p.push_back(Line("heap").set("fail", r.below(3))); continue; }
    Line l;
    if (!last.verb.empty() && r.chance(15)) l = last;
    else {
      l = gen_op(r, pool, kinds, r.chance(bad));
      string op = l.get("op");
      bool e4 = op.compare(0, 4, "e448") == 0;
      if (op.find(".verify") != string::npos && !l.has("craft") && r.below(100) < bad) {
        if (r.chance(45)) l.set("pkl", odd_key(r, e4));
        else if (r.chance(25)) { size_t K = e4 ? 57 : 32; Bytes s(K, 0); l.set("sigx", fmt("%zu.%llx", 2 * K - 1, 1ull << r.below(8))); }
      }
      // context lengths everywhere up to the limit
      if (l.has("c") && !l.has("clen") && r.chance(30)) l.set("c", gen_data(r, r.chance(40) ? r.pickn({253, 254, 255, 256, 257}) : r.below(256)));
    }
    l.set("pl", r.chance(80) ? r.below(npl) : r.below(5000));
    l.set("fill", r.chance(50) ? r.pickn({0, 255, 0xAA}) : r.below(256));
    if (r.chance(60)) l.set("poison", r.next() >> 8);
    if (g_nlibs > 1 && r.chance(12)) l.set("lib", r.range(1, g_nlibs - 1));
    p.push_back(l);
    last = l;
  }
  return p;
}
static void exec(const Plan& p) {
  u64 state = 0;
  for (auto& l : p) {
    state++;
    if (l.verb == "restart") {
      R->fault("process_restart");
      libstate_restore();
      HeapCfg c;
      c.fill = (uint8_t)state;
      heap_reset(c);
      R->ev("restart");
    } else if (l.verb == "heap") heap_cfg().fail = {heap_allocs() + l.num("fail")};
    else if (l.verb == "op") {
      Op o = make_op(l);
      const Expect& e = o->expect();
      bool ed = o->name[0] == 'e';
      if (ed && !e.touched) { R->fault("context_too_long"); R->probe("sign_refused"); }
      if (e.verdict == 0) R->probe("verify_accepted");
      if (e.verdict == 1) { R->probe("verify_bad_signature"); R->fault("bad_signature"); }
      if (e.verdict == 2) { R->probe("verify_bad_key"); R->fault("bad_key"); }
      if (e.verdict == 3) { R->probe("verify_bad_context"); R->fault("context_too_long"); }
      run_op_line(l, "accepted and refused operations");
    }
    string e = heap_check();
    if (!e.empty()) R->fail("heap", "accepted and refused operations: " + e);
    if (heap_live()) R->fail("leak", "accepted and refused operations: heap blocks are left");
  }
}
World w_c11() { return {"c11", gen, exec}; }
