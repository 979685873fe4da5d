// C24: processes that agree on keys crash and are dumped at drawn instants after
// a call; no dump may hold a private key of a call that has returned, beyond the
// buffer its owner keeps it in.
#include <unordered_map>
#include "lib.hpp"
#include "ops.hpp"
#include "targets.hpp"
using std::string;

// Words that pass through a register may be left behind one by one; a copy of
// the key is more than that.
static const size_t W = 12;
static Plan gen(Rng& r) {
  Plan p;
  Pool pool = make_pool(r, 2, false);
  int n = (int)r.range(2, 14);
  u64 base = (1 << 24) + r.below(1 << 24);
  for (int i = 0; i < n; i++) {
    u64 c = r.below(100);
    if (c < 4) { p.push_back(Line("restart")); continue; }
    if (c < 8) { p.push_back(Line("heap").set("fail", r.below(3))); continue; }
    Line l("op");
    if (c < 20) { l = gen_op(r, pool, G_ALL & ~G_X, false); l.verb = "other"; }
    else if (c < 37) { l = Line("rand").set("kind", RAND_KINDS[r.below(8)]).set("seed", r.below(1 << 20)).set("read", r.pick({"", "", "s:1,s:3", "EINTR", "s:16,EINTR,s:5", "s:31", "s:20,s:0,EINTR"})); }
    else {
      int e = (int)r.below(3);
      size_t K = e == 2 ? 56 : 32;
      string k = fmt("r:%llx:%zu", (unsigned long long)(base + r.below(3) + 16 * e), K);
      bool g = r.chance(40);
      l.set("op", g ? "x.keygen" : "x.shared").set("e", e).set("k", k);
      if (!g) {
        u64 d = r.below(10);
        if (d < 6) l.set("of", fmt("r:%llx:%zu", (unsigned long long)r.below(50), K));
        else if (d < 8) l.set("u", r.pick({"z", "f", "i", "o"}) + fmt(":%zu", K));
        else l.set("u", gen_data(r, K));
      }
    }
    l.set("pl", r.below(100)).set("poison", r.next() >> 8);
    if (g_nlibs > 1 && r.chance(30)) l.set("lib", r.range(1, g_nlibs - 1));
    p.push_back(l);
  }
  return p;
}
static u64 w8(const uint8_t* b) { u64 v = 0; memcpy(&v, b, 8); return v; }
struct Hunt {
  std::unordered_map<u64, std::vector<std::pair<int, int>>> win;
  std::vector<std::pair<Bytes, string>> keys;
  std::set<Bytes> have;
  void add(const Bytes& k, const string& name) {
    if (!have.insert(k).second) return;
    keys.push_back({k, name});
    for (size_t i = 0; i + 8 <= k.size(); i++) win[w8(&k[i])].push_back({(int)keys.size() - 1, (int)i});
  }
  // the longest piece of a key found, at least W bytes
  void look(const uint8_t* b, size_t n, const string& where, const string& when) {
    for (size_t i = 0; i + 8 <= n; i++) {
      auto it = win.find(w8(b + i));
      if (it == win.end()) continue;
      for (auto& h : it->second) {
        const Bytes& k = keys[h.first].first;
        size_t len = 8;
        while (i + len < n && h.second + len < k.size() && b[i + len] == k[h.second + len]) len++;
        if (len >= W) R->fail("key-left:" + where, when + ": a dump of the process shows bytes " + fmt("%d to %zu", h.second, h.second + len - 1) + " of the private key of " + keys[h.first].second + " in its " + where + fmt(" (at %zu of %zu)", i, n));
      }
    }
  }
};
static void exec(const Plan& p) {
  static Bytes img(80 * 1024);
  Hunt h;
  struct Off { ~Off() { g_dump.on = false; g_dump.freed.clear(); } } off;
  u64 state = 0;
  for (auto& l : p) {
    string when;
    state++;
    if (l.verb == "restart") {
      R->fault("process_restart");
      libstate_restore();
      HeapCfg c;
      c.fill = (uint8_t)state;
      heap_reset(c);
      R->ev("restart");
      continue;
    }
    if (l.verb == "heap") { heap_cfg().fail = {heap_allocs() + l.num("fail")}; continue; }
    g_dump.on = true;
    g_dump.buf = img.data();
    g_dump.n = img.size();
    g_dump.freed.clear();
    std::fill(img.begin(), img.end(), 0);
    if (l.verb == "op" || l.verb == "other") {
      when = l.get("op");
      if (l.verb == "op") {
        size_t K = l.num("e") == 2 ? 56 : 32;
        Bytes k = spec_bytes(l.get("k"));
        k.resize(K);
        Bytes c = k;
        if (K == 32) { c[0] &= 248; c[31] = (uint8_t)((c[31] & 127) | 64); } else { c[0] &= 252; c[55] |= 128; }
        h.add(k, when);
        h.add(c, when);
      }
      run_op_line(l, "agreement before a crash");
    } else if (l.verb == "rand") {
      string k = l.get("kind", "x25519");
      RandTarget t = rand_target(k, (int)l.num("lib"), 32);
      if (!t.fn || t.ser) continue;
      when = "generation of a key for " + k;
      EntropyCfg c;
      c.seed = l.num("seed");
      for (auto& w : split(l.get("read"), ',')) if (!w.empty()) c.read_script.push_back(w);
      entropy_reset(c);
      Buf b = place(l.num("pl"), t.obj, l.num("pl") & 1, 1, 0, 0xAA);
      g_poison.on = true;
      g_poison.seed = l.num("poison");
      GuardResult g = guarded([&] { lib_call((void (*)(void*))t.fn, (void*)b.p); });
      g_poison.on = false;
      R->st->steps++;
      R->st->ops["rand " + k]++;
      R->order("rand " + k);
      if (g.oc != OC_OK) R->fail("crash:rand", when + " ended with " + g.text());
      h.add(Bytes(b.p, b.p + b.len), when);
      R->ev(when, Bytes(b.p, b.p + b.len));
      buf_free(b);
    } else continue;
    R->fault("crash_dump");
    if (l.verb == "other" && !h.keys.empty()) R->fault("dump_after_later_calls");
    h.look(img.data(), img.size(), "stack", when);
    h.look(g_dump.freed.data(), g_dump.freed.size(), "released heap blocks", when);
    for (auto& m : lib_memory()) h.look(m.first, m.second, "static memory", when);
  }
}
World w_c24() { return {"c24", gen, exec}; }
