// C06: parties agree on keys over a faulty network, each step with an engine of
// its choice, with crashes and restarts from stored keys.
#include <unistd.h>
#include <algorithm>
#include "net.hpp"
#include "ops.hpp"
#include "ref.hpp"
using std::string;

static size_t KB(int x4) { return x4 ? 56 : 32; }
static Bytes le(std::initializer_list<u64> w, size_t n) { Bytes b; for (u64 x : w) for (int i = 0; i < 8; i++) b.push_back((uint8_t)(x >> (8 * i))); b.resize(n); return b; }
static Bytes prime(int x4) { return x4 ? le({~0ull, ~0ull, ~0ull, 0xfffffffeffffffffull, ~0ull, ~0ull, ~0ull}, 56) : le({0xffffffffffffffedull, ~0ull, ~0ull, 0x7fffffffffffffffull}, 32); }
static Bytes plus(const Bytes& a, const Bytes& b, int64_t k = 0) {  // a + b + k mod 2^(8n)
  Bytes r(a.size());
  int64_t c = k;
  for (size_t i = 0; i < a.size(); i++) { c += a[i] + (i < b.size() ? b[i] : 0); r[i] = (uint8_t)c; c >>= 8; }
  return r;
}
// public values of small order and around the prime
static Bytes special(int x4, u64 i) {
  Bytes z(KB(x4), 0), p = prime(x4);
  if (x4) {
    switch (i % 10) {
      case 0: return z;
      case 1: return plus(z, {1});
      case 2: return plus(p, z, -1);
      case 3: return p;
      case 4: return plus(p, {1});
      case 5: return Bytes(56, 0xff);
      case 6: return plus(z, {5});
      case 7: return plus(p, {5});
      case 8: return plus(z, {2});
      default: return plus(p, z, -2);
    }
  }
  static const u64 O8[2][4] = {{0xaeb8413b7c7aebe0ull, 0x6ac49ff1fae35616ull, 0xfdb1329ceb8d09daull, 0x00b8495f16056286ull},
                               {0xb1d0b1559c83ef5full, 0xc445c39c8e508e24ull, 0x8c1bf3b5b786ad9full, 0x57119fd0dd4e22d8ull}};
  switch (i % 14) {
    case 0: return z;
    case 1: return plus(z, {1});
    case 2: return plus(p, z, -1);
    case 3: return p;
    case 4: return plus(p, {1});
    case 5: return Bytes(32, 0xff);
    case 6: return le({O8[0][0], O8[0][1], O8[0][2], O8[0][3]}, 32);
    case 7: return le({O8[1][0], O8[1][1], O8[1][2], O8[1][3]}, 32);
    case 8: { Bytes b = plus(z, {9}); b[31] |= 0x80; return b; }
    case 9: return plus(p, {9});
    case 10: return plus(z, {2});
    case 11: return plus(p, z, -2);
    case 12: { Bytes b(32, 0xff); b[31] = 0x7f; return b; }
    default: { Bytes b = special(0, 6 + i / 14 % 2); b[31] |= 0x80; return b; }
  }
}
static Bytes alter(Bytes u, int x4, const string& x, const Bytes& key, const std::vector<Bytes>& seen, std::vector<string>& kinds) {
  for (auto& w : split(x, ';')) {
    if (w.compare(0, 2, "u~") == 0) { for (auto& t : split(w.substr(2), '~')) { size_t d = t.find('.'); if (d != string::npos) u[strtoull(t.c_str(), 0, 10) % u.size()] ^= (uint8_t)strtoul(t.c_str() + d + 1, 0, 16); } kinds.push_back("bits_flipped"); }
    else if (w.compare(0, 8, "special=") == 0) { u = special(x4, strtoull(w.c_str() + 8, 0, 10)); kinds.push_back("special_value"); }
    else if (w.compare(0, 6, "value=") == 0) { u = spec_bytes(w.substr(6)); u.resize(KB(x4)); kinds.push_back("value_of_runs"); }
    else if (w.compare(0, 4, "aim=") == 0) {  // whoever knows the key can choose the secret
      Bytes t = spec_bytes(w.substr(4));
      t.resize(KB(x4));
      u = x4 ? ref::x448_aim(key, t) : ref::x25519_aim(key, t);
      kinds.push_back("secret_aimed_at");
    }
    else if (w == "plusp") { u = plus(u, prime(x4)); kinds.push_back("prime_added"); }
    else if (w == "neg") { Bytes p = prime(x4); int c = 0; for (size_t i = 0; i < u.size(); i++) { c += p[i] - u[i]; u[i] = (uint8_t)c; c >>= 8; } kinds.push_back("negated"); }
    else if (w.compare(0, 4, "old=") == 0 && !seen.empty()) { const Bytes& o = seen[strtoull(w.c_str() + 4, 0, 10) % seen.size()]; u = o; u.resize(KB(x4)); kinds.push_back("replayed_value"); }
    else if (w == "swap") { std::rotate(u.begin(), u.begin() + u.size() / 2, u.end()); kinds.push_back("halves_swapped"); }
  }
  return u;
}
static string gen_alter(Rng& r, int x4) {
  u64 c = r.below(100);
  size_t n = KB(x4);
  if (c < 45) { string s = fmt("u~%zu.%02x", (size_t)(r.chance(70) ? r.below(n) : n - 1), 1u << r.below(8)); if (r.chance(20)) s += fmt("~%zu.%02x", (size_t)r.below(n), (unsigned)r.range(1, 255)); return s; }
  if (c < 55) return fmt("u~%zu.80", n - 1);
  if (c < 60) return "value=" + (r.chance(50) ? gen_operand(r, x4) : gen_ladder_value(r, x4));
  if (c < 66) return "aim=" + gen_target(r, x4);
  if (c < 82) return fmt("special=%u", (unsigned)r.below(28));
  if (c < 88) return "plusp";
  if (c < 90) return "neg";
  if (c < 98) return fmt("old=%u", (unsigned)r.below(20));
  return "swap";
}
static Plan gen(Rng& r) {
  Plan p;
  int np = (int)r.range(2, 4), n = (int)r.range(3, 12);
  p.push_back(Line("net").set("seed", r.below(1 << 30)).set("loss", r.chance(70) ? r.below(40) : 0).set("dup", r.chance(60) ? r.below(50) : 0).set("delay", r.pickn({20, 300, 3000, 20000})));
  for (int i = 0; i < np; i++) {
    string k = r.chance(70) ? fmt("r:%llx:56", (unsigned long long)r.below(1 << 16)) : gen_data(r, 56);
    p.push_back(Line("party").set("id", (u64)i).set("k", k).set("mix", r.below(3)));
  }
  u64 span = n * 2000;
  for (u64 k = r.below(5); k; k--) p.push_back(Line("crash").set("id", r.below(np)).set("t", r.below(span)).set("down", r.range(50, 6000)));
  for (u64 k = r.below(2); k; k--) p.push_back(Line("cut").set("id", r.below(np)).set("t", r.below(span)).set("len", r.range(100, 9000)));
  int favour = r.chance(40) ? (int)r.below(2) : -1;
  for (int i = 0; i < n; i++) {
    int x4 = favour >= 0 ? favour : (int)r.below(2);
    u64 a = r.below(np), b = r.below(np);
    if (a == b && r.chance(80)) b = (a + 1) % np;
    Line l("session");
    l.set("n", (u64)i).set("a", a).set("b", b).set("x4", (u64)x4).set("t", (u64)i * 2000);
    if (r.chance(50)) { l.set("ka", r.chance(70) ? fmt("r:%llx:%zu", (unsigned long long)r.below(1 << 24), KB(x4)) : gen_data(r, KB(x4))); }
    p.push_back(l);
    for (u64 k = r.chance(55) ? r.range(1, 2) : 0; k; k--)
      p.push_back(Line("attack").set("n", (u64)i).set("dir", r.below(2)).set("first", r.chance(70)).set("x", gen_alter(r, x4)));
  }
  return p;
}
struct Party { Bytes k; u64 mix = 0; int lib = 0, eng = 0; };
struct Sess {
  Line l;
  int x4 = 0, who[2] = {0, 0};
  Bytes key[2], pub[2], got[2], secret[2];   // got[i]: what party i received; keys, values and secrets are on disk
  bool published[2] = {false, false}, recv[2] = {false, false}, started = false;
};
static void exec(const Plan& p) {
  Net net;
  std::map<int, Party> pt;
  std::map<u64, Sess> ss;
  std::vector<Bytes> seen;
  u64 span = 1;
  for (auto& l : p) {
    if (l.verb == "net") { net.seed = l.num("seed"); net.loss = (unsigned)l.num("loss"); net.dup = (unsigned)l.num("dup"); net.delay = std::max<u64>(1, l.num("delay", 100)); }
    else if (l.verb == "party") { Party& x = pt[(int)l.num("id")]; x.k = spec_bytes(l.get("k", "z:56")); x.k.resize(56); x.mix = l.num("mix"); }
    else if (l.verb == "session") { Sess& s = ss[l.num("n")]; s.l = l; span = std::max(span, l.num("t")); }
  }
  for (int i = 0; pt.size() < 2; i++) if (!pt.count(i)) { pt[i].k = rnd_bytes(i + 50, 56); }
  net.quiet_at = span + 30000;
  Rng pr(net.seed ^ 0x77);
  auto run = [&](Line& l, Party& x, int x4, const string& what) {
    int lib = x.mix ? (int)pr.below(g_nlibs) : x.lib;
    int e = x4 ? 2 : x.mix ? (int)pr.below(2) : x.eng;
    l.set("e", (u64)e).set("lib", (u64)lib).set("pl", pr.below(4000));
    Op o = make_op(l);
    Placed q;
    q.put(o, l.num("pl"), (unsigned)pr.below(256), true);
    g_poison.on = true;
    g_poison.seed = pr.next();
    q.run();
    g_poison.on = false;
    R->st->steps++;
    R->st->ops[o->name]++;
    q.check(what);
    Bytes r(q.out[0].p, q.out[0].p + q.out[0].len);
    q.release();
    R->order(what + std::to_string(e));
    R->ev(fmt("%s engine %d build %d", what.c_str(), e, lib), r);
    return r;
  };
  auto shared = [&](Sess& s, int i, const string& what) {
    Line l("op");
    l.set("op", "x.shared").set("k", "h:" + hex(s.key[i])).set("u", "h:" + hex(s.got[i]));
    return run(l, pt[s.who[i]], s.x4, what);
  };
  auto publish_value = [&](Sess& s, int i, const string& what) {
    Line l("op");
    l.set("op", "x.keygen").set("k", "h:" + hex(s.key[i]));
    return run(l, pt[s.who[i]], s.x4, what);
  };
  std::map<u64, std::vector<Line>> attacks;
  for (auto& l : p) if (l.verb == "attack") attacks[l.num("n") * 2 + (l.num("dir") & 1)].push_back(l);
  std::map<u64, size_t> used;
  auto receive = [&](u64 n, int i, const Bytes& u) {
    Sess& s = ss[n];
    if (s.recv[i]) { R->probe("duplicate_value_ignored"); return; }
    if (s.key[i].empty()) return;
    s.got[i] = u;
    s.recv[i] = true;
    s.secret[i] = shared(s, i, "agreement");
  };
  std::function<void(u64, int)> send = [&](u64 n, int i) {  // party i tells the other its value until it arrived
    Sess& s = ss[n];
    if (s.recv[1 - i]) return;
    if (net.up(s.who[i]) && s.published[i]) {
      Bytes u = s.pub[i];
      net.send(s.who[i], s.who[1 - i], [&, n, i, u] {
        u64 key = n * 2 + i;
        auto& at = attacks[key];
        if (used[key] < at.size()) {
          Line& a = at[used[key]++];
          std::vector<string> kinds;
          Bytes v = alter(u, ss[n].x4, a.get("x"), ss[n].key[1 - i], seen, kinds);
          for (auto& k : kinds) R->fault(k);
          if (a.num("first")) { receive(n, 1 - i, v); receive(n, 1 - i, u); } else { receive(n, 1 - i, u); receive(n, 1 - i, v); }
          return;
        }
        receive(n, 1 - i, u);
      });
    }
    net.after(3000, [&, n, i] { send(n, i); });
  };
  std::function<void(u64, int)> begin = [&](u64 n, int i) {
    Sess& s = ss[n];
    if (!net.up(s.who[i])) { net.after(700, [&, n, i] { begin(n, i); }); return; }
    s.pub[i] = publish_value(s, i, "public value");
    seen.push_back(s.pub[i]);
    s.published[i] = true;
    send(n, i);
  };
  for (auto& e : ss) {
    Sess& s = e.second;
    s.x4 = s.l.num("x4") & 1;
    int a = (int)s.l.num("a"), b = (int)s.l.num("b");
    s.who[0] = pt.count(a) ? a : pt.begin()->first;
    s.who[1] = pt.count(b) ? b : pt.rbegin()->first;
    for (int i = 0; i < 2; i++) s.key[i] = Bytes(pt[s.who[i]].k.begin(), pt[s.who[i]].k.begin() + KB(s.x4));
    if (s.l.has("ka")) { s.key[0] = spec_bytes(s.l.get("ka")); s.key[0].resize(KB(s.x4)); }
    u64 n = e.first;
    for (int i = 0; i < 2; i++) net.at(s.l.num("t"), [&, n, i] { begin(n, i); });
  }
  for (auto& l : p) {
    if (l.verb == "cut") net.cuts.push_back({(int)l.num("id"), l.num("t"), l.num("t") + l.num("len")});
    if (l.verb != "crash" || !pt.count((int)l.num("id"))) continue;
    int id = (int)l.num("id");
    u64 down = l.num("down", 100);
    net.at(l.num("t"), [&, id, down] {
      if (!net.up(id)) return;
      net.boot[id]++;
      R->fault("party_crash");
      libstate_restore();
      net.after(down, [&, id] {
        net.boot[id]++;
        R->fault("party_restart");
        pt[id].lib = (int)pr.below(g_nlibs);
        pt[id].eng = (int)pr.below(2);
        // everything is derived again from the stored keys
        for (auto& e : ss) {
          Sess& s = e.second;
          for (int i = 0; i < 2; i++) {
            if (s.who[i] != id || !s.published[i]) continue;
            R->probe("derived_again_after_restart");
            if (publish_value(s, i, "public value after restart") != s.pub[i]) R->fail("public-value-changed", fmt("session %llu: after a restart the stored key gave another public value", (unsigned long long)e.first));
            if (s.recv[i] && shared(s, i, "agreement after restart") != s.secret[i]) R->fail("secret-changed", fmt("session %llu: after a restart the stored key and value gave another secret", (unsigned long long)e.first));
          }
        }
      });
    });
  }
  net.run();
  for (auto& e : ss) {
    Sess& s = e.second;
    if (!s.recv[0] || !s.recv[1]) { fprintf(stderr, "sim: session %llu did not end\n", (unsigned long long)e.first); _exit(99); }
    bool intact = s.got[0] == s.pub[1] && s.got[1] == s.pub[0], equal = s.secret[0] == s.secret[1];
    R->probe(intact ? "intact" : equal ? "altered_without_effect" : "altered");
    if (intact && !equal)
      R->fail("no-agreement", fmt("session %llu: values arrived intact but the secrets are %s and %s", (unsigned long long)e.first, hex(s.secret[0]).c_str(), hex(s.secret[1]).c_str()));
    if (!intact && equal) {
      // the definition must give the same secret too
      Bytes w[2];
      for (int i = 0; i < 2; i++) w[i] = s.x4 ? ref::x448(s.key[i], s.got[i]) : ref::x25519(s.key[i], s.got[i]);
      if (w[0] != w[1]) R->fail("false-agreement", fmt("session %llu: a value was altered but the secrets are equal", (unsigned long long)e.first));
    }
  }
  R->ev(fmt("end at %llu us", (unsigned long long)net.now));
}
World w_c06() { return {"c06", gen, exec}; }
