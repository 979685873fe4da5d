// C05: signers and verifiers over a network that alters, cuts, extends, splices,
// duplicates, reorders and replays what it carries; nodes crash and restart.
#include <sys/mman.h>
#include <unistd.h>
#include <algorithm>
#include "lib.hpp"
#include "huge.hpp"
#include "net.hpp"
#include "ops.hpp"
#include "aimed.hpp"
using std::string;

static const int NS = 5;  // 25519 pure, context, prehash; 448 context, prehash
static const char* SN[NS] = {"ed25519", "ed25519ctx", "ed25519ph", "ed448", "ed448ph"};
static bool is448(int s) { return s >= 3; }
static size_t KB(int s) { return is448(s) ? 57 : 32; }
struct Packet {
  int sv = 0;
  Bytes f[4];  // pk, ctx, msg, sig
  bool operator<(const Packet& o) const {
    if (sv != o.sv) return sv < o.sv;
    for (int i = 0; i < 4; i++) if (f[i] != o.f[i]) return f[i] < o.f[i];
    return false;
  }
};
static const char* FN[4] = {"pk", "ctx", "msg", "sig"};
// The standard itself lets anyone sign under a key of small order, so the record
// of what was signed says nothing about such a key: its answer is the model's.
static bool small_order(const Packet& p) {
  if (is448(p.sv)) { ref::E4 A; if (!ref::E4::dec(A, p.f[0].data())) return false; A = A.add(A); A = A.add(A); return A.X.is_zero() && A.Y == A.Z; }
  ref::E1 A;
  if (!ref::E1::dec(A, p.f[0].data())) return false;
  for (int i = 0; i < 3; i++) A = A.add(A);
  return A.X.is_zero() && A.Y == A.Z;
}
static int model_verdict(const Packet& p) { return is448(p.sv) ? ref::Ed448::verify(p.sv - 2, p.f[0], p.f[2], p.f[1], p.f[3]) : ref::Ed25519::verify(p.sv, p.f[0], p.f[2], p.f[1], p.f[3]); }

// ------------------------------------------------------------------ calls
struct In { Buf b; In(const Bytes& d, u64 pl) { u64 h = mix64(pl); b = place(h >> 20, d.size(), h & 1, 1, (h >> 1) & 1 ? 0 : (h >> 2) % 150, (uint8_t)(h >> 40)); if (!d.empty()) memcpy(b.p, d.data(), d.size()); buf_protect(b, true); } ~In() { if (b.p) buf_free(b); } In(const In&) = delete; };
static u64 guarded_call(const string& what, const std::function<u64()>& f) {
  u64 v = 0;
  GuardResult g = guarded([&] { v = f(); });
  R->st->steps++;
  R->st->ops[what]++;
  if (g.oc != OC_OK) R->fail("crash:" + what, what + " ended with " + g.text());
  return (uint32_t)v;
}
static Bytes keygen(int s, const Bytes& sk, int lib, u64 pl) {
  const Lib* L = g_libs[lib];
  In k(sk, pl);
  Buf o = place(pl % 97 + 5, KB(s), pl & 1, 1, 0, 0xAA);
  auto fn = s == 0 ? L->e255->Pure.keygen : s == 1 ? L->e255->Context.keygen : s == 2 ? L->e255->PreHash.keygen : s == 3 ? L->e448->PureContext.keygen : L->e448->PreHash.keygen;
  guarded_call("keygen", [&] { return lib_call(fn, o.p, k.b.p); });
  Bytes r(o.p, o.p + o.len);
  buf_free(o);
  return r;
}
static u64 sign(int s, Bytes& sig, const Bytes& m, const Bytes& c, const Bytes& pk, const Bytes& sk, int lib, u64 pl) {
  const Lib* L = g_libs[lib];
  In im(m, pl), ic(c, pl + 1), ip(pk, pl + 2), is(sk, pl + 3);
  Buf o = place(pl % 91 + 9, 2 * KB(s), pl & 1, 1, 0, 0x55);
  u64 v = guarded_call(string("sign ") + SN[s], [&] {
    if (s == 0) return lib_call(L->e255->Pure.sign, o.p, (const uint8_t*)im.b.p, (uint64_t)m.size(), ip.b.p, is.b.p);
    auto fn = s == 1 ? L->e255->Context.sign : s == 2 ? L->e255->PreHash.sign : s == 3 ? L->e448->PureContext.sign : L->e448->PreHash.sign;
    return lib_call(fn, o.p, (const uint8_t*)im.b.p, (uint64_t)m.size(), (const uint8_t*)ic.b.p, (uint64_t)c.size(), ip.b.p, is.b.p);
  });
  sig.assign(o.p, o.p + o.len);
  buf_free(o);
  return v;
}
static u64 verify(const Packet& p, int lib, u64 pl) {
  const Lib* L = g_libs[lib];
  In im(p.f[2], pl), ic(p.f[1], pl + 1), ip(p.f[0], pl + 2), is(p.f[3], pl + 3);
  int s = p.sv;
  g_poison.on = true;
  g_poison.seed = pl;
  u64 v = guarded_call(string("verify ") + SN[s], [&] {
    if (s == 0) return lib_call(L->e255->Pure.verify, (const uint8_t*)im.b.p, (uint64_t)p.f[2].size(), ip.b.p, is.b.p);
    auto fn = s == 1 ? L->e255->Context.verify : s == 2 ? L->e255->PreHash.verify : s == 3 ? L->e448->PureContext.verify : L->e448->PreHash.verify;
    return lib_call(fn, (const uint8_t*)im.b.p, (uint64_t)p.f[2].size(), (const uint8_t*)ic.b.p, (uint64_t)p.f[1].size(), ip.b.p, is.b.p);
  });
  g_poison.on = false;
  return v;
}
// ------------------------------------------------------------------ alterations
// x=<op>;<op>..: sig~3.80  msg-4  ctx+2  shift+3  sv=2  sadd=1  spl=<n>.<field>  swap  zero.<field>
// craft=<S>: the neutral key and a signature anyone can make for it
// rx~31.80 or rx~n1: signed anew by its signer, with an altered commitment
static void alter(Packet& p, const string& x, const std::vector<Packet>& all, const Bytes& key, std::vector<string>& kinds) {
  auto field = [&](const string& s) { for (int i = 0; i < 4; i++) if (s.compare(0, strlen(FN[i]), FN[i]) == 0) return i; return -1; };
  for (auto& w : split(x, ';')) {
    if (w.empty()) continue;
    int f = field(w);
    string rest = f >= 0 ? w.substr(strlen(FN[f])) : "";
    if (f >= 0 && rest.size() > 1 && rest[0] == '~') {
      for (auto& t : split(rest.substr(1), '~')) {
        size_t dot = t.find('.');
        if (dot == string::npos || p.f[f].empty()) continue;
        p.f[f][strtoull(t.c_str(), 0, 10) % p.f[f].size()] ^= (uint8_t)strtoul(t.c_str() + dot + 1, 0, 16);
      }
      kinds.push_back(string("bits_flipped_") + FN[f]);
    } else if (f >= 1 && f <= 2 && rest.size() > 1 && (rest[0] == '-' || rest[0] == '+')) {
      u64 n = strtoull(rest.c_str() + 1, 0, 10);
      if (rest[0] == '-') p.f[f].resize(p.f[f].size() - std::min<u64>(n, p.f[f].size()));
      else { size_t z = p.f[f].size(); for (u64 i = 0; i < n && i < 4000; i++) p.f[f].push_back((uint8_t)(i & 1 ? 0x80 : z ? p.f[f][i % z] : 0)); }
      kinds.push_back(string(rest[0] == '-' ? "truncated_" : "extended_") + FN[f]);
    } else if (w.compare(0, 5, "shift") == 0 && w.size() > 6) {
      u64 n = strtoull(w.c_str() + 6, 0, 10);
      Bytes &c = p.f[1], &m = p.f[2];
      if (w[5] == '+') { n = std::min<u64>(n, m.size()); c.insert(c.end(), m.begin(), m.begin() + n); m.erase(m.begin(), m.begin() + n); }
      else { n = std::min<u64>(n, c.size()); m.insert(m.begin(), c.end() - n, c.end()); c.resize(c.size() - n); }
      kinds.push_back("context_message_shift");
    } else if (w.compare(0, 3, "sv=") == 0) {
      p.sv = (int)(strtoul(w.c_str() + 3, 0, 10) % NS);
      p.f[0].resize(KB(p.sv));
      p.f[3].resize(2 * KB(p.sv));
      kinds.push_back("scheme_mixed_up");
    } else if (w.compare(0, 5, "sadd=") == 0) {
      size_t n = KB(p.sv);
      const uint64_t* L = is448(p.sv) ? ref::L448() : ref::L25519();
      for (u64 k = strtoul(w.c_str() + 5, 0, 10) % 20; k; k--) {
        unsigned c = 0;
        for (size_t i = 0; i < n; i++) { c += p.f[3][n + i] + (i / 8 < (is448(p.sv) ? 7 : 4) ? (uint8_t)(L[i / 8] >> (8 * (i % 8))) : 0); p.f[3][n + i] = (uint8_t)c; c >>= 8; }
      }
      kinds.push_back("scalar_reencoded");
    } else if (w.compare(0, 3, "rx~") == 0 && w.size() > 3) {
      ref::Forger f = forger(w.substr(3));
      Bytes sk(key.begin(), key.begin() + KB(p.sv)), c = p.f[1];
      if (c.size() > 255) continue;
      p.f[0] = model_pub(is448(p.sv) ? "e448" : "e25519", sk);
      p.f[3] = is448(p.sv) ? ref::Ed448::sign(p.sv - 2, sk, p.f[0], p.f[2], c, &f) : ref::Ed25519::sign(p.sv, sk, p.f[0], p.f[2], p.sv ? c : Bytes(), &f);
      kinds.push_back(f.neutral ? "commitment_noncanonical" : "commitment_altered");
    } else if (w.compare(0, 4, "spl=") == 0) {
      auto t = split(w.substr(4), '.');
      if (t.size() < 2 || all.empty()) continue;
      const Packet& o = all[strtoul(t[0].c_str(), 0, 10) % all.size()];
      size_t n = KB(p.sv);
      if (t[1] == "R") std::copy(o.f[3].begin(), o.f[3].begin() + std::min(n, KB(o.sv)), p.f[3].begin());
      else if (t[1] == "S") { if (KB(o.sv) == n) std::copy(o.f[3].begin() + n, o.f[3].end(), p.f[3].begin() + n); }
      else { int g = field(t[1]); if (g >= 0) { p.f[g] = o.f[g]; if (g == 0) p.f[0].resize(n); if (g == 3) p.f[3].resize(2 * n); } }
      kinds.push_back("spliced_" + t[1]);
    } else if (w.compare(0, 6, "craft=") == 0) {
      // by nobody: under the neutral key any S goes with R = [S]B
      bool e4 = is448(p.sv);
      size_t n = KB(p.sv);
      Bytes S = spec_bytes(w.substr(6));
      S.resize(n);
      if (e4) S[56] = 0;
      S = e4 ? ref::Ed448::reduce(S) : ref::Ed25519::reduce(S);
      p.f[3] = e4 ? ref::bmul<ref::E4>(S.data(), 57).enc() : ref::bmul<ref::E1>(S.data(), 32).enc();
      ref::app(p.f[3], S);
      p.f[0].assign(n, 0);
      p.f[0][0] = 1;
      kinds.push_back("neutral_key");
    } else if (w == "swap") {
      size_t n = KB(p.sv);
      std::rotate(p.f[3].begin(), p.f[3].begin() + n, p.f[3].end());
      kinds.push_back("halves_swapped");
    } else if (w.compare(0, 5, "zero.") == 0) {
      int g = field(w.substr(5));
      if (g >= 0) std::fill(p.f[g].begin(), p.f[g].end(), 0);
      kinds.push_back("zeroed");
    }
  }
  if (p.sv == 0) p.f[1].clear();  // has no context
}
static string gen_alter(Rng& r, int sv, int npub) {
  string s;
  size_t n = KB(sv);
  int k = r.chance(75) ? 1 : (int)r.range(2, 3);
  auto flip = [&](const char* f, size_t len) {
    u64 c = r.below(10);
    size_t pos = c < 6 ? r.below(len ? len : 1) : c < 8 ? (len ? len - 1 : 0) : c == 8 ? 0 : (len ? len - 1 - r.below(std::min<size_t>(len, 4)) : 0);
    string t = fmt("%s~%zu.%02x", f, pos, r.chance(75) ? 1u << r.below(8) : (unsigned)r.range(1, 255));
    if (r.chance(15)) t += fmt("~%zu.%02x", (size_t)r.below(len ? len : 1), 1u << r.below(8));
    return t;
  };
  while (k--) {
    if (!s.empty()) s += ";";
    u64 c = r.below(100);
    if (c < 30) s += flip("sig", 2 * n);
    else if (c < 43) s += flip("pk", n);
    else if (c < 51) s += flip("ctx", r.range(1, 255));
    else if (c < 61) s += flip("msg", r.chance(50) ? r.range(1, 200) : r.range(1, 70000));
    else if (c < 65) s += fmt("msg%c%u", r.chance(50) ? '+' : '-', (unsigned)(r.chance(60) ? 1 + r.below(3) : r.below(200)));
    else if (c < 69) s += fmt("ctx%c%u", r.chance(50) ? '+' : '-', (unsigned)(r.chance(60) ? 1 + r.below(3) : r.below(256)));
    else if (c < 74) s += fmt("shift%c%u", r.chance(50) ? '+' : '-', (unsigned)(r.chance(60) ? 1 + r.below(3) : r.below(256)));
    else if (c < 79) s += fmt("sv=%u", (unsigned)(r.chance(80) ? (is448(sv) ? 3 + r.below(2) : r.below(3)) : r.below(NS)));
    else if (c < 87) s += "rx~" + gen_forger(r, n);
    else if (c < 91) s += fmt("sadd=%u", (unsigned)(r.chance(60) ? 1 : r.range(1, 15)));
    else if (c < 97) s += fmt("spl=%u.%s", (unsigned)r.below(npub), r.pick({"R", "S", "sig", "pk", "ctx", "msg"}).c_str());
    else if (c < 98) s += "swap";
    else if (r.chance(60)) s += "craft=" + (r.chance(40) ? fmt("h:%02x", (unsigned)(r.chance(60) ? 0 : r.range(1, 2))) : gen_data(r, n));
    else s += string("zero.") + r.pick({"sig", "pk", "msg", "ctx"});
  }
  return s;
}
static Plan gen(Rng& r) {
  Plan p;
  int signers = (int)r.range(1, 3), verifiers = (int)r.range(1, 3), n = (int)r.range(3, 14);
  p.push_back(Line("net").set("seed", r.below(1 << 30)).set("loss", r.chance(70) ? r.below(40) : 0).set("dup", r.chance(60) ? r.below(50) : 0).set("delay", r.pickn({20, 300, 3000, 20000})));
  std::vector<bool> rare;  // by key: messages with scalars of a rare form are known for one
  for (int i = 0; i < signers; i++) {
    string k = r.chance(55) ? fmt("r:%llx:57", (unsigned long long)r.below(1 << 20)) : r.chance(45) ? "r:1:57" : r.chance(50) ? (r.chance(50) ? aimed(r, aimed_k5, 57) : aimed(r, aimed_k4, 57)) : r.pick({"z:57", "f:57", "i:57"});
    rare.push_back(k == "r:1:57");
    p.push_back(Line("signer").set("id", (u64)i).set("key", k).set("mix", r.below(2)));
  }
  for (int i = 0; i < verifiers; i++) p.push_back(Line("verifier").set("id", (u64)i).set("mix", r.below(2)));
  u64 span = n * 1500;
  for (u64 k = r.below(4); k; k--) p.push_back(Line("crash").set("who", r.chance(50) ? "s" : "v").set("id", r.below(3)).set("t", r.below(span)).set("down", r.range(50, 5000)));
  for (u64 k = r.below(2); k; k--) p.push_back(Line("cut").set("id", 100 + r.below(verifiers)).set("t", r.below(span)).set("len", r.range(100, 9000)));
  std::vector<int> svs;
  int favour = r.chance(40) ? (int)r.below(NS) : -1;
  u64 sharedm = r.below(100);
  for (int i = 0; i < n; i++) {
    int sv = favour >= 0 && r.chance(80) ? favour : (int)r.below(NS);
    svs.push_back(sv);
    Line l("sign");
    string m = r.chance(25) ? fmt("r:%llx:%u", (unsigned long long)sharedm, 20u) : gen_msg(r, r.chance(10));
    if (r.chance(2)) m = fmt("r:%llx:%u", (unsigned long long)r.below(99), (unsigned)r.range(30000, 70000));
    u64 by = r.below(signers);
    l.set("n", (u64)i).set("by", by).set("sv", (u64)sv).set("t", (u64)i * 1500);
    if (rare[by] && r.chance(70)) {
      bool e4 = r.chance(50), h = r.chance(75);
      svs.back() = sv = e4 ? 3 : 0;
      m = e4 ? h ? aimed(r, aimed_h4, 16) : aimed(r, aimed_n4, 16) : h ? aimed(r, aimed_h5, 16) : aimed(r, aimed_n5, 16);
      l.set("sv", (u64)sv).set("m", m);
      if (e4) l.set("c", "z:0");
      if (h) l.set("rm", "z:0");
      p.push_back(l);
      continue;
    }
    l.set("m", m);
    if (r.chance(3)) l.set("rm", gen_msg(r, false));
    if (sv) {
      string c = gen_ctx(r);
      if (r.chance(20)) c = fmt("r:%llx:%u", (unsigned long long)r.below(9), (unsigned)r.range(250, 255));
      l.set("c", c);
    }
    p.push_back(l);
  }
  for (int i = (int)r.range(4, 50); i > 0; i--) {
    int j = (int)r.below(n);
    p.push_back(Line("attack").set("n", (u64)j).set("to", r.below(verifiers)).set("after", r.chance(50) ? r.below(1500) : r.below(30000)).set("x", gen_alter(r, svs[j], n)));
  }
  for (u64 k = r.below(6); k; k--) p.push_back(Line("attack").set("n", r.below(n)).set("to", r.below(verifiers)).set("after", r.below(40000)).set("x", ""));  // replay
  return p;
}
// ------------------------------------------------------------------ the system
struct Signer { Bytes key; int mix = 0, lib = 0; };
struct Verifier {
  int mix = 0, lib = 0;
  std::vector<std::pair<Packet, bool>> inbox;  // durable, with the answer given
  std::set<u64> done;                          // publications accepted
};
static void exec(const Plan& p) {
  Net net;
  std::map<int, Signer> sg;
  std::map<int, Verifier> vf;
  std::map<u64, Line> jobs;
  u64 span = 1;
  for (auto& l : p) {
    if (l.verb == "net") { net.seed = l.num("seed"); net.loss = (unsigned)l.num("loss"); net.dup = (unsigned)l.num("dup"); net.delay = std::max<u64>(1, l.num("delay", 100)); }
    else if (l.verb == "signer") { Signer& s = sg[(int)l.num("id")]; s.key = spec_bytes(l.get("key", "z:57")); s.key.resize(57); s.mix = (int)l.num("mix"); }
    else if (l.verb == "verifier") vf[(int)l.num("id")].mix = (int)l.num("mix");
    else if (l.verb == "sign" && !jobs.count(l.num("n"))) { jobs[l.num("n")] = l; span = std::max(span, l.num("t")); }
  }
  if (sg.empty()) sg[0].key = rnd_bytes(1, 57);
  if (vf.empty()) vf[0].mix = 0;
  net.quiet_at = span + 45000;
  std::map<u64, Packet> pub;        // what was published, by job
  std::vector<Packet> all;
  std::set<Packet> honest;
  std::set<std::pair<int, Bytes>> pks;
  Rng pr(net.seed ^ 0x9999);
  auto lib_of = [&](int mix, int lib) { return mix ? (int)pr.below(g_nlibs) : lib; };
  // one verification, judged on the spot
  auto judge = [&](Verifier& v, const Packet& q, const string& why) {
    int lib = lib_of(v.mix, v.lib);
    u64 ret = verify(q, lib, pr.below(1 << 20));
    bool ok = ret == V_OK, want = honest.count(q) > 0;
    R->order(string(SN[q.sv]) + (ok ? "+" : "-"));
    R->ev(fmt("%s: %s m %zu c %zu -> %llu (build %d)", why.c_str(), SN[q.sv], q.f[2].size(), q.f[1].size(), (unsigned long long)ret, lib));
    if (!want && small_order(q)) {
      int m = q.f[1].size() > 255 ? 1 : model_verdict(q);
      R->probe("small_order_key");
      if (m != 3 && ok != (m == 0)) R->fail(string(ok ? "accepted-altered:" : "refused-valid:") + SN[q.sv], why + ": " + SN[q.sv] + " answered a signature under a key of small order against the standard" + fmt(" (accepted %d, model %d)", ok, m) + "; signature " + hex(q.f[3]));
      want = ok;
    }
    if (ok && !want) {
      string d;
      for (auto& h : all) {  // nearest honest packet
        string e;
        if (h.sv != q.sv) e += string(" scheme(") + SN[h.sv] + ")";
        for (int i = 0; i < 4; i++) if (h.f[i] != q.f[i]) e += string(" ") + FN[i];
        if (d.empty() || e.size() < d.size()) d = e;
      }
      R->fail(string("accepted-altered:") + SN[q.sv], why + ": " + SN[q.sv] + fmt(" accepted a message of %zu bytes under a context of %zu which was never signed; it differs from a signed one in", q.f[2].size(), q.f[1].size()) + d + "; signature " + hex(q.f[3]));
    }
    if (!ok && want) R->fail(string("refused-intact:") + SN[q.sv], why + ": " + SN[q.sv] + fmt(" refused (code %llu) an intact signature on %zu bytes with a context of %zu", (unsigned long long)ret, q.f[2].size(), q.f[1].size()));
    R->probe(ok ? "accepted" : "refused");
    return ok;
  };
  auto deliver = [&](int to, const Packet& q, const string& why, int64_t job) {
    Verifier& v = vf[to];
    bool ok = judge(v, q, why);
    v.inbox.push_back({q, ok});
    if (job >= 0 && ok) v.done.insert((u64)job);
  };
  // publication, repeated until every verifier has it
  std::function<void(u64)> publish = [&](u64 n) {
    bool all_done = true;
    for (auto& v : vf) {
      if (v.second.done.count(n)) continue;
      all_done = false;
      int to = v.first;
      net.send(0, 100 + to, [&, to, n] { if (vf[to].done.count(n)) R->probe("replayed_delivery"); deliver(to, pub[n], "delivery", (int64_t)n); });
    }
    if (!all_done) net.after(4000, [&, n] { publish(n); });
  };
  std::function<void(u64)> dosign = [&](u64 n) {
    const Line& l = jobs[n];
    int by = (int)l.num("by");
    if (!sg.count(by)) by = sg.begin()->first;
    if (!net.up(by)) { net.after(500, [&, n] { dosign(n); }); return; }  // signs after its restart
    Signer& s = sg[by];
    Packet q;
    q.sv = (int)(l.num("sv") % NS);
    Bytes sk(s.key.begin(), s.key.begin() + KB(q.sv));
    int lib = lib_of(s.mix, s.lib);
    q.f[0] = keygen(q.sv, sk, lib, pr.below(1 << 20));
    q.f[2] = spec_bytes(l.get("m", "z:0"));
    if (q.sv) { q.f[1] = spec_bytes(l.get("c", "z:0")); if (q.f[1].size() > 255) q.f[1].resize(255); }
    u64 ret = sign(q.sv, q.f[3], q.f[2], q.f[1], q.f[0], sk, lib_of(s.mix, s.lib), pr.below(1 << 20));
    if (ret != 1) R->fail(string("not-signed:") + SN[q.sv], fmt("signing %zu bytes with a context of %zu returned %llu", q.f[2].size(), q.f[1].size(), (unsigned long long)ret));
    if (l.has("rm")) {
      // by an implementation which used the nonce of another message: the
      // signature is as valid as any
      ref::Forger f;
      f.reuse = true;
      f.other = spec_bytes(l.get("rm"));
      q.f[3] = is448(q.sv) ? ref::Ed448::sign(q.sv - 2, sk, q.f[0], q.f[2], q.f[1], &f) : ref::Ed25519::sign(q.sv, sk, q.f[0], q.f[2], q.f[1], &f);
      R->fault("commitment_of_another_message");
    }
    R->ev(fmt("signer %d signs %llu ", by, (unsigned long long)n) + SN[q.sv], q.f[3]);
    pub[n] = q;
    all.push_back(q);
    honest.insert(q);
    publish(n);
  };
  for (auto& j : jobs) { u64 n = j.first; net.at(j.second.num("t"), [&, n] { dosign(n); }); }
  std::vector<Line> attacks;
  for (auto& l : p) if (l.verb == "attack") attacks.push_back(l);
  for (auto& l : attacks) {
    u64 n = l.num("n");
    if (!jobs.count(n)) continue;
    std::shared_ptr<std::function<void()>> go = std::make_shared<std::function<void()>>();
    int to = (int)l.num("to");
    if (!vf.count(to)) to = vf.begin()->first;
    string x = l.get("x");
    *go = [&, n, to, x, go] {
      if (!pub.count(n) || !net.up(100 + to)) { if (net.now < net.quiet_at * 4) net.after(1500, *go); return; }
      Packet q = pub[n];
      std::vector<string> kinds;
      { int by = (int)jobs[n].num("by"); alter(q, x, all, sg[sg.count(by) ? by : sg.begin()->first].key, kinds); }
      if (q.f[2].size() > 120000) return;
      for (auto& k : kinds) R->fault(k);
      if (kinds.empty()) R->fault("replayed");
      if (!kinds.empty() && honest.count(q)) R->probe("alteration_without_effect");
      deliver(to, q, x.empty() ? "replay" : "altered by " + x, -1);
    };
    net.at(jobs[n].num("t") + 50 + l.num("after"), *go);
  }
  for (auto& l : p) {
    if (l.verb == "cut") net.cuts.push_back({(int)l.num("id"), l.num("t"), l.num("t") + l.num("len")});
    if (l.verb != "crash") continue;
    bool ver = l.get("who") == "v";
    int id = (int)l.num("id"), node = ver ? 100 + id : id;
    if (ver ? !vf.count(id) : !sg.count(id)) continue;
    u64 down = l.num("down", 100);
    net.at(l.num("t"), [&, node, id, ver, down] {
      if (!net.up(node)) return;
      net.boot[node]++;
      R->fault(ver ? "verifier_crash" : "signer_crash");
      libstate_restore();
      net.after(down, [&, node, id, ver] {
        net.boot[node]++;
        R->fault(ver ? "verifier_restart" : "signer_restart");
        if (!ver) { sg[id].lib = (int)pr.below(g_nlibs); return; }
        Verifier& v = vf[id];
        v.lib = (int)pr.below(g_nlibs);
        // what was stored is checked again and must be answered as before
        size_t k = 0;
        for (auto& e : v.inbox) {
          if (++k > 25) break;
          if (judge(v, e.first, "after restart") != e.second) R->fail(string("answer-changed:") + SN[e.first.sv], "after a restart the same delivery was answered differently");
          R->probe("checked_again_after_restart");
        }
      });
    });
  }
  net.run();
  for (auto& v : vf) for (auto& j : jobs) if (!v.second.done.count(j.first)) { fprintf(stderr, "sim: publication %llu did not reach verifier %d\n", (unsigned long long)j.first, v.first); _exit(99); }
  R->ev(fmt("end at %llu us", (unsigned long long)net.now));
}
World w_c05() { return {"c05", gen, exec}; }

// ------------------------------------------------------------------ long messages
extern u64 g_run_index;
static Plan gen_long(Rng& r) {
  u64 i = g_run_index;
  Plan p;
  u64 n = (i / 5 % 2 ? 1ull << 29 : 1ull << 32) + 1 + r.below(3000);
  p.push_back(Line("long").set("sv", i % 5).set("n", n).set("seed", r.below(1000)).set("how", r.below(3)).set("at", r.below(2000)));
  return p;
}
static void exec_long(const Plan& p) {
  for (auto& l : p) {
    if (l.verb != "long") continue;
    int s = (int)(l.num("sv") % NS);
    u64 n = l.num("n");
    const Lib* L = g_libs[0];
    Huge h(n + 4096, l.num("seed"));
    Bytes sk = rnd_bytes(l.num("seed") + 7, KB(s)), pk = keygen(s, sk, 0, 1), c = s ? rnd_bytes(3, l.num("seed") % 255) : Bytes();
    In ip(pk, 5), is(sk, 6), ic(c, 7);
    Buf o = place(9, 2 * KB(s), true, 1, 0, 0x55);
    auto sgn = [&](u64 len) { return guarded_call(string("long sign ") + SN[s], [&] {
      if (s == 0) return lib_call(L->e255->Pure.sign, o.p, (const uint8_t*)h.base, (uint64_t)len, ip.b.p, is.b.p);
      auto fn = s == 1 ? L->e255->Context.sign : s == 2 ? L->e255->PreHash.sign : s == 3 ? L->e448->PureContext.sign : L->e448->PreHash.sign;
      return lib_call(fn, o.p, (const uint8_t*)h.base, (uint64_t)len, (const uint8_t*)ic.b.p, (uint64_t)c.size(), ip.b.p, is.b.p); }); };
    auto ver = [&](u64 len) { return guarded_call(string("long verify ") + SN[s], [&] {
      if (s == 0) return lib_call(L->e255->Pure.verify, (const uint8_t*)h.base, (uint64_t)len, ip.b.p, o.p);
      auto fn = s == 1 ? L->e255->Context.verify : s == 2 ? L->e255->PreHash.verify : s == 3 ? L->e448->PureContext.verify : L->e448->PreHash.verify;
      return lib_call(fn, (const uint8_t*)h.base, (uint64_t)len, (const uint8_t*)ic.b.p, (uint64_t)c.size(), ip.b.p, o.p); }); };
    if (sgn(n) != 1) R->fail(string("not-signed:long-") + SN[s], fmt("signing %llu bytes failed", (unsigned long long)n));
    if (ver(n) != V_OK) R->fail(string("refused-intact:long-") + SN[s], fmt("an intact signature on %llu bytes was refused", (unsigned long long)n));
    u64 how = l.num("how") % 3, m = n;
    if (how == 0) { h.base[n - 1 - l.num("at") % std::min<u64>(2000, n)] ^= 1; R->fault("bits_flipped_msg"); }
    else if (how == 1) { m = n % (1ull << 32); if (m == n) m = n % (1ull << 29); R->fault("truncated_msg"); }
    else { m = n + 1; R->fault("extended_msg"); }
    if (ver(m) == V_OK) R->fail(string("accepted-altered:long-") + SN[s], fmt("a signature on %llu bytes was accepted for another message of %llu bytes", (unsigned long long)n, (unsigned long long)m));
    R->probe(n >= 1ull << 32 ? "message_of_2^32_bytes" : "message_of_2^32_bits");
    R->order(SN[s]);
    R->ev(string("long ") + SN[s], Bytes(o.p, o.p + o.len));
    buf_free(o);
  }
}
World w_c05long() { return {"c05long", gen_long, exec_long}; }
