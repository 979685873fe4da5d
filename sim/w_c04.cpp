// C04: histories of hash contexts: pieces, interleaving, copies, moves, saves to
// a disk that survives crashes, resets, reuse, abandonment; long messages.
#include <sys/mman.h>
#include <unistd.h>
#include <algorithm>
#include "ops.hpp"
#include "lib.hpp"
using std::string;

static const char* ALGS[] = {"sha512", "sha384", "sha3", "shake128", "shake256"};
static const int NC = 6, ND = 4;
// algorithm of a context: 0, 1 are SHA-2; sponges are closed as the call says
static int alg_no(const string& s) { for (int i = 0; i < 5; i++) if (s == ALGS[i]) return i; return 0; }
static bool sponge(int a) { return a >= 2; }

// ------------------------------------------------------------------ generator
static string piece(Rng& r, int a) {
  static const size_t E2[] = {0, 1, 16, 64, 111, 112, 113, 119, 120, 127, 128, 129, 239, 240, 255, 256, 257, 384, 512};
  static const size_t E3[] = {0, 1, 8, 32, 64, 135, 136, 137, 167, 168, 169, 200, 271, 272, 273, 335, 336, 337, 408, 504};
  size_t n;
  u64 k = r.below(10);
  if (k < 4) n = sponge(a) ? E3[r.below(sizeof E3 / sizeof *E3)] : E2[r.below(sizeof E2 / sizeof *E2)];
  else if (k < 7) n = r.below(40);
  else if (k < 9) n = r.below(600);
  else n = r.below(5000);
  if (r.chance(15)) return fmt("%s:%zu", r.pick({"z", "f", "i"}).c_str(), n);
  return fmt("r:%llx:%zu", (unsigned long long)r.below(8), n);
}
static Plan gen_long(Rng& r);
static Plan gen(Rng& r) {
  Plan p;
  int n = (int)r.range(10, 90), nc = (int)r.range(1, NC);
  std::vector<int> alg(NC, -1);
  int favour = r.chance(40) ? (int)r.below(5) : -1;
  if (r.chance(30)) p.push_back(Line("residue").set("seed", r.below(1 << 20)));
  for (int i = 0; i < n; i++) {
    u64 x = r.below(nc), k = r.below(100);
    Line l("ctx");
    l.set("id", x);
    if (alg[x] < 0 || k < 4) {
      alg[x] = favour >= 0 ? favour : (int)r.below(5);
      l.set("do", "init").set("alg", ALGS[alg[x]]).set("pl", r.below(64)).set("fill", r.below(256));
      if (g_nlibs > 1 && r.chance(20)) l.set("lib", r.range(1, g_nlibs - 1));
      if (r.chance(30)) l.set("same", 1);
    } else if (k < 58) {
      l.set("do", "upd").set("m", piece(r, alg[x])).set("pl", r.below(64));
      if (r.chance(6)) l.set("rep", r.range(2, 60));
      if (r.chance(15)) l.set("null", 1);
    } else if (k < 72) {
      l.set("do", "close").set("pl", r.below(64)).set("fill", r.below(256));
      if (sponge(alg[x])) {
        l.set("as", alg[x] == 2 ? "sha3" : r.chance(85) ? "shake" : "sha3").set("d", r.chance(50) ? r.pickn({0, 1, 32, 64, 114, 135, 136, 137, 167, 168, 169, 272, 336, 337}) : r.below(700));
        if (r.chance(70)) alg[x] = -1;
      } else if (r.chance(25)) l.set("nb", r.range(1, 7)).set("xb", r.below(256));
    } else if (k < 79) { u64 y = r.below(nc); l.set("do", r.chance(65) ? "copy" : "move").set("to", y).set("pl", r.below(64)).set("fill", r.below(256)); alg[y] = alg[x]; if (l.get("do") == "move" && y != x) alg[x] = -1; }
    else if (k < 84) { l.set("do", "save").set("slot", r.below(ND)); if (r.chance(20)) l.set("torn", r.below(240)); }
    else if (k < 88) { l.set("do", "load").set("slot", r.below(ND)).set("pl", r.below(64)).set("fill", r.below(256)); if (alg[x] < 0) alg[x] = 0; }
    else if (k < 92) { l.set("do", "drop"); alg[x] = -1; }
    else if (k < 97) l.set("do", "whole").set("d", r.below(500)).set("pl", r.below(64)).set("fill", r.below(256));
    else if (k < 99) { p.push_back(Line("crash").set("fill", r.below(256))); for (auto& a : alg) a = -1; for (int z = (int)r.below(3); z >= 0; z--) { int y = (int)r.below(nc); p.push_back(Line("ctx").set("id", (u64)y).set("do", "load").set("slot", r.below(ND)).set("pl", r.below(64))); alg[y] = 0; } continue; }
    else { Pool pool = make_pool(r, 1, false); Line o = gen_op(r, pool, G_HASH | G_ED448 | G_ED25519, false); o.set("pl", r.below(20)); p.push_back(o); continue; }
    if (r.chance(15)) l.set("poison", r.next() >> 40);
    p.push_back(l);
  }
  return p;
}
// ------------------------------------------------------------------ interpreter
struct Ctx { Buf b; int alg = 0, lib = 0; Bytes msg; bool closed = false; };
struct Saved { Bytes img, msg; int alg, lib; bool closed; };
static Bytes want(const Ctx& c, const string& as, size_t d, int nb, unsigned xb) {
  if (!sponge(c.alg)) return ref::Sha2::hash(c.msg, c.alg ? 384 : 512, nb, xb);
  if (c.alg == 3) return ref::keccak(c.msg, 168, as == "sha3" ? 6 : 0x1f, as == "sha3" ? 16 : d);
  return ref::keccak(c.msg, 136, as == "sha3" ? 6 : 0x1f, as == "sha3" ? 32 : d);
}
static void exec(const Plan& p) {
  std::map<u64, Ctx> ctxs;
  Saved disk[ND];
  bool have[ND] = {false};
  u64 seq = 0;
  auto size_of = [](int a) { return sponge(a) ? sizeof(hashState) : sizeof(sph_sha512_context); };
  auto align_of = [](int a) { return sponge(a) ? (size_t)32 : (size_t)8; };
  auto put = [&](size_t n, size_t al, const Line& l, const char* tag) {
    u64 h = mix64(l.num("pl") ^ hash_str(tag) ^ (l.num("same") ? 0 : ++seq << 20));
    return place(h >> 20, n, h & 1, al, (h >> 1) & 1 ? 0 : (h >> 2) % 200, (uint8_t)l.num("fill", 0xAA));
  };
  auto call = [&](const string& what, const std::function<void()>& f, const Line& l) {
    g_poison.on = l.has("poison");
    g_poison.seed = l.num("poison");
    GuardResult g = guarded(f);
    g_poison.on = false;
    R->st->steps++;
    R->st->ops[what]++;
    R->order(what);
    if (g.oc != OC_OK) R->fail("crash:" + what, what + " ended with " + g.text() + " [" + l.text().substr(0, 200) + "]");
    for (auto& c : ctxs) {
      string s = buf_check_surroundings(c.second.b);
      if (!s.empty()) R->fail("stray-write:" + what, what + " wrote near a context: " + s);
    }
  };
  auto forget = [&](u64 id) {
    auto it = ctxs.find(id);
    if (it == ctxs.end()) return;
    memset(it->second.b.p, 0xE1, it->second.b.len);
    buf_free(it->second.b);
    ctxs.erase(it);
  };
  auto compare = [&](const string& what, const Buf& o, const Bytes& w, const Ctx& c, const Line& l) {
    string s = buf_check_surroundings(o);
    if (!s.empty()) R->fail("stray-write:" + what, what + " wrote outside the digest: " + s);
    if (o.len && memcmp(o.p, w.data(), o.len))
      R->fail("wrong-digest:" + what, what + fmt(" of %s over %zu bytes gave ", ALGS[c.alg], c.msg.size()) + hex(o.p, std::min<size_t>(o.len, 48)) + " instead of " + hex(w).substr(0, 96) + " [" + l.text().substr(0, 200) + "]");
    R->ev(what, w);
  };
  for (auto& l : p) {
    if (l.verb == "residue") { g_poison.seed = l.num("seed"); continue; }
    if (l.verb == "op") { run_op_line(l, "between contexts"); continue; }
    if (l.verb == "crash") {
      R->fault("process_restart");
      for (auto& c : ctxs) { memset(c.second.b.p, (int)l.num("fill"), c.second.b.len); buf_free(c.second.b); }
      ctxs.clear();
      libstate_restore();
      R->ev("crash");
      continue;
    }
    if (l.verb != "ctx") continue;
    u64 id = l.num("id") % NC;
    string d = l.get("do");
    const bool live = ctxs.count(id);
    if (d == "init") {
      int a = alg_no(l.get("alg", "sha512"));
      bool reuse = live && ctxs[id].b.len == size_of(a);
      if (live && !reuse) forget(id);
      if (live) R->probe(reuse ? "reset_in_use" : "replaced");
      Ctx& c = ctxs[id];
      if (!reuse) { c.b = put(size_of(a), align_of(a), l, "ctx"); memset(c.b.p, (int)l.num("fill", 0xAA) ^ 0x5f, c.b.len); }
      c.alg = a;
      c.lib = (int)l.num("lib") & 3;
      if (c.lib >= g_nlibs) c.lib = 0;
      c.msg.clear();
      c.closed = false;
      const Lib* L = g_libs[c.lib];
      void* q = c.b.p;
      call("init", [&] { if (sponge(a)) lib_call(L->k_init, (hashState*)q, a == 3 ? 128 : 256); else lib_call(a ? L->s384_init : L->s512_init, q); }, l);
      R->ev(fmt("init %llu %s", (unsigned long long)id, ALGS[a]));
      continue;
    }
    if (d == "load") {
      u64 s = l.num("slot") % ND;
      if (!have[s]) continue;
      forget(id);
      Ctx& c = ctxs[id];
      c.alg = disk[s].alg; c.lib = disk[s].lib; c.msg = disk[s].msg; c.closed = disk[s].closed;
      c.b = put(size_of(c.alg), align_of(c.alg), l, "ctx");
      memcpy(c.b.p, disk[s].img.data(), c.b.len);
      R->fault("restored_from_disk");
      R->ev("load");
      continue;
    }
    if (!live) continue;
    Ctx& c = ctxs[id];
    const Lib* L = g_libs[c.lib];
    void* q = c.b.p;
    if (d == "drop") { forget(id); R->fault("context_abandoned"); R->ev("drop"); }
    else if (d == "save") {
      u64 s = l.num("slot") % ND;
      if (l.has("torn") && l.num("torn") < c.b.len) { R->fault("torn_save"); R->ev("save torn"); continue; }  // the record fails its checksum; the older one stays
      disk[s] = Saved{Bytes(c.b.p, c.b.p + c.b.len), c.msg, c.alg, c.lib, c.closed};
      have[s] = true;
      R->fault("saved_to_disk");
      R->ev("save");
    } else if (d == "copy" || d == "move") {
      u64 to = l.num("to") % NC;
      if (to == id) continue;
      Ctx n = c;
      forget(to);
      n.b = put(size_of(n.alg), align_of(n.alg), l, "ctx");
      memcpy(n.b.p, ctxs[id].b.p, n.b.len);
      ctxs[to] = n;
      if (d == "move") forget(id);
      R->probe(d == "copy" ? "context_copied" : "context_moved");
      R->order(d);
      R->ev(d);
    } else if (d == "upd") {
      if (c.closed) continue;
      Bytes m = spec_bytes(l.get("m", "z:0"));
      u64 rep = std::min<u64>(std::max<u64>(1, l.num("rep", 1)), 200);
      bool null = m.empty() && l.num("null");
      Buf b = put(m.size(), 1, l, "m");
      if (!m.empty()) memcpy(b.p, m.data(), m.size());
      buf_protect(b, true);
      for (u64 i = 0; i < rep; i++) {
        call("update", [&] { if (sponge(c.alg)) lib_call(L->k_update, (hashState*)q, (const BitSequence*)(null ? nullptr : b.p), (DataLength)m.size() * 8); else lib_call(L->s384, q, (const void*)(null ? nullptr : b.p), m.size()); }, l);
        c.msg.insert(c.msg.end(), m.begin(), m.end());
      }
      if (!m.empty() && memcmp(b.p, m.data(), m.size())) R->fail("input-changed", "update changed its input");
      buf_free(b);
      if (m.empty()) R->probe("empty_piece");
      R->ev(fmt("update %llu %zu", (unsigned long long)id, m.size()));
    } else if (d == "close") {
      if (c.closed) continue;
      string as = l.get("as", "shake");
      if (c.alg == 2) as = "sha3";
      int nb = sponge(c.alg) ? 0 : (int)l.num("nb") & 7;
      unsigned xb = (unsigned)l.num("xb") & 255;
      size_t dl = std::min<u64>(l.num("d", 64), 2000);
      Bytes w = want(c, as, dl, nb, xb);
      Buf o = put(w.size(), 1, l, "o");
      string what = !sponge(c.alg) ? (nb ? "close_bits" : "close") : as == "sha3" ? "final" : "final_shake";
      call(what, [&] {
        if (sponge(c.alg)) {
          if (as == "sha3") lib_call(L->k_final, (hashState*)q, (BitSequence*)o.p);
          else lib_call(L->k_final2, (hashState*)q, (BitSequence*)o.p, (unsigned)dl);
        } else if (nb) lib_call(c.alg ? L->s384_bits : L->s512_bits, q, xb, (unsigned)nb, (void*)o.p);
        else lib_call(c.alg ? L->s384_close : L->s512_close, q, (void*)o.p);
      }, l);
      compare(what, o, w, c, l);
      buf_free(o);
      c.msg.clear();
      if (sponge(c.alg)) c.closed = true;   // to be initialised again
      else R->probe("used_after_close");
    } else if (d == "whole") {
      // the same message through the other entry points
      if (c.closed) continue;
      const Bytes& m = c.msg;
      if (m.size() > 120000) continue;
      Buf b = put(m.size(), 1, l, "m");
      if (!m.empty()) memcpy(b.p, m.data(), m.size());
      buf_protect(b, true);
      size_t dl = c.alg == 2 ? 32 : l.num("d", 64);
      if (sponge(c.alg)) {
        Bytes w = want(c, c.alg == 2 ? "sha3" : "shake", dl, 0, 0);
        Buf o = put(w.size(), 1, l, "o");
        call("one_shot", [&] {
          if (c.alg == 2) lib_call(L->k_hash, 256, (const BitSequence*)b.p, (DataLength)m.size() * 8, (BitSequence*)o.p);
          else lib_call(c.alg == 3 ? L->k_shake128 : L->k_shake256, (const BitSequence*)b.p, (DataLength)m.size() * 8, (BitSequence*)o.p, (unsigned)dl);
        }, l);
        compare("one_shot", o, w, c, l);
        buf_free(o);
      } else {
        Bytes m2 = rnd_bytes(m.size() + l.num("d"), m.size());
        bool same = l.num("d") & 1, swap = l.num("d") & 2;
        Buf b2 = put(m2.size(), 1, l, "n"), o1 = put(64, 1, l, "o"), o2 = put(64, 1, l, "p");
        if (!m2.empty()) memcpy(b2.p, m2.data(), m2.size());
        buf_protect(b2, true);
        uint8_t* mm[2] = {b.p, same ? b.p : b2.p};
        uint8_t* dd[2] = {o1.p, o2.p};
        if (swap) std::swap(mm[0], mm[1]);
        bool fixed = m.size() == 32 && l.num("d") & 4 && L->sha2w_256;
        call("two_lanes", [&] {
          if (fixed) R->probe("two_lanes_of_32"), lib_call(L->sha2w_256, (uint8_t**)mm, (uint8_t**)dd);
          else lib_call(L->sha2w, (uint8_t**)mm, m.size(), (uint8_t**)dd);
        }, l);
        Ctx t = c;
        t.alg = 0;
        Bytes w = ref::sha512(m), w2 = same ? w : ref::sha512(m2);
        if (swap) std::swap(w, w2);
        compare("two_lanes", o1, w, t, l);
        compare("two_lanes", o2, w2, t, l);
        for (auto* x : {&b2, &o1, &o2}) buf_free(*x);
      }
      buf_free(b);
    }
  }
}
World w_c04() { return {"c04", gen, exec}; }

// ------------------------------------------------------------------ long messages
// A message of n bytes: the same page over and over again, so that counters of
// bits and bytes pass 2^32 with little memory.
struct Stream {  // reference, by blocks
  int kind;      // 0 sha512 1 sha384 2.. sponge
  size_t rate;
  uint64_t h[8] = {0};
  uint64_t st[25] = {0};
  Bytes rest;
  unsigned __int128 n = 0;
  explicit Stream(int k) : kind(k), rate(k < 2 ? 128 : k == 3 ? 168 : 136) {
    static const uint64_t I[2][8] = {{0x6a09e667f3bcc908ull, 0xbb67ae8584caa73bull, 0x3c6ef372fe94f82bull, 0xa54ff53a5f1d36f1ull, 0x510e527fade682d1ull, 0x9b05688c2b3e6c1full, 0x1f83d9abfb41bd6bull, 0x5be0cd19137e2179ull},
                                     {0xcbbb9d5dc1059ed8ull, 0x629a292a367cd507ull, 0x9159015a3070dd17ull, 0x152fecd8f70e5939ull, 0x67332667ffc00b31ull, 0x8eb44a8768581511ull, 0xdb0c2e0d64f98fa7ull, 0x47b5481dbefa4fa4ull}};
    if (k < 2) memcpy(h, I[k], sizeof h);
  }
  void block(const uint8_t* p) {
    if (kind < 2) { ref::Sha2::compress(h, p); return; }
    for (size_t i = 0; i < rate / 8; i++) { u64 x; memcpy(&x, p + 8 * i, 8); st[i] ^= x; }
    ref::keccakf(st);
  }
  void add(const uint8_t* p, size_t len) {
    n += len;
    if (!rest.empty()) {
      size_t k = std::min(len, rate - rest.size());
      rest.insert(rest.end(), p, p + k);
      p += k;
      len -= k;
      if (rest.size() == rate) { block(rest.data()); rest.clear(); }
    }
    while (len >= rate) { block(p); p += rate; len -= rate; }
    rest.insert(rest.end(), p, p + len);
  }
  Bytes end(uint8_t dom, size_t d) {
    Bytes o;
    if (kind < 2) {
      unsigned __int128 bits = n * 8;
      rest.push_back(0x80);
      while (rest.size() % 128 != 112) rest.push_back(0);
      for (int i = 15; i >= 0; i--) rest.push_back((uint8_t)(bits >> (8 * i)));
      for (size_t i = 0; i < rest.size(); i += 128) block(&rest[i]);
      for (int i = 0; i < (kind ? 6 : 8); i++) for (int j = 7; j >= 0; j--) o.push_back((uint8_t)(h[i] >> (8 * j)));
      return o;
    }
    rest.push_back(dom);
    rest.resize(rate, 0);
    rest[rate - 1] |= 0x80;
    block(rest.data());
    while (true) {
      for (size_t i = 0; i < rate && o.size() < d; i++) o.push_back((uint8_t)(st[i / 8] >> (8 * (i % 8))));
      if (o.size() >= d) return o;
      ref::keccakf(st);
    }
  }
};
extern u64 g_run_index;
static Plan gen_long(Rng& r) {
  // strata: every entry point passes 2^29 bytes (2^32 bits) and 2^32 bytes
  static const char* WHO[] = {"sha512", "sha3", "shake256", "one_sha3", "one_shake128", "sha2w", "sha384", "one_shake256", "shake128", "squeeze"};
  u64 i = g_run_index;
  Plan p;
  bool big = i % 2;
  u64 n = (big ? 1ull << 32 : 1ull << 29) + r.below(3000) - (r.chance(30) ? 1500 : 0);
  string who = WHO[i / 2 % 10];
  if (who == "squeeze") { p.push_back(Line("squeeze").set("m", fmt("r:%llx:%zu", (unsigned long long)r.below(1000), (size_t)r.below(400))).set("d", (big ? (1ull << 31) + 400 : 1ull << 29) + r.below(3000)).set("alg", r.below(2) ? "shake128" : "shake256").set("one", big ? i / 20 % 2 : r.below(2))); return p; }
  p.push_back(Line("long").set("alg", who).set("n", n).set("piece", r.pickn({1 << 20, 1 << 22, 999999, 4194305})).set("seed", r.below(1000)).set("tail", r.below(300)));
  return p;
}
// Outputs of 2^29 and 2^31 bytes.
static void exec_squeeze(const Line& l) {
  const Lib* L = g_libs[0];
  string a = l.get("alg", "shake256");
  int kind = alg_no(a);
  if (kind < 3) kind = 4;
  u64 d = l.num("d"), span = (d + 4096 + 4095) / 4096 * 4096;
  Bytes m = spec_bytes(l.get("m", "z:0"));
  if (mem_available() < (span >> 20) + 2000) { R->probe("skipped_for_want_of_memory"); return; }
  uint8_t* o = (uint8_t*)mmap((void*)0x200000000000ull, span, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  memset(o + d, 0x5d, span - d);
  Buf cb = place(3, 512, false, 64, 0, 0x33), b = place(4, m.size(), true, 1, 0, 0xAA);
  if (!m.empty()) memcpy(b.p, m.data(), m.size());
  void* c = cb.p;
  GuardResult g = guarded([&] {
    if (l.num("one")) { lib_call(kind == 3 ? L->k_shake128 : L->k_shake256, (const BitSequence*)b.p, (DataLength)m.size() * 8, (BitSequence*)o, (unsigned)d); return; }
    lib_call(L->k_init, (hashState*)c, kind == 3 ? 128 : 256);
    lib_call(L->k_update, (hashState*)c, (const BitSequence*)b.p, (DataLength)m.size() * 8);
    lib_call(L->k_final2, (hashState*)c, (BitSequence*)o, (unsigned)d);
  });
  R->st->ops["long squeeze"]++;
  R->order(fmt("squeeze %s %llu %d", a.c_str(), (unsigned long long)d, (int)l.num("one")));
  R->probe(d >= 1ull << 31 ? "output_of_2^31_bytes" : "output_of_2^29_bytes");
  string bad;
  u64 h = 0;
  if (g.oc == OC_OK) {
    Stream ref(kind);
    ref.add(m.data(), m.size());
    Bytes first = ref.end(0x1f, ref.rate);  // the state is now that of the first block
    for (u64 at = 0; at < d && bad.empty(); at += ref.rate) {
      if (at) ref::keccakf(ref.st);
      if (memcmp(o + at, ref.st, std::min<u64>(ref.rate, d - at))) bad = fmt("differs from the reference in the block at byte %llu", (unsigned long long)at);
    }
    h = hash_bytes((uint8_t*)ref.st, 200, 1);
    for (u64 i = d; i < span && bad.empty(); i++) if (o[i] != 0x5d) bad = fmt("goes on to byte %llu", (unsigned long long)i);
  }
  munmap(o, span);
  if (g.oc != OC_OK) R->fail("crash:long-squeeze", a + fmt(" with %llu bytes of output ended with ", (unsigned long long)d) + g.text());
  if (!bad.empty()) R->fail("wrong-digest:long-squeeze", a + fmt(" with %llu bytes of output ", (unsigned long long)d) + bad);
  R->ev(fmt("squeeze %016llx", (unsigned long long)h));
  for (auto* x : {&b, &cb}) buf_free(*x);
}
static void exec_long(const Plan& p) {
  for (auto& l : p) {
    if (l.verb == "squeeze") { exec_squeeze(l); continue; }
    if (l.verb != "long") continue;
    string a = l.get("alg", "sha512");
    u64 n = l.num("n");
    const Lib* L = g_libs[0];
    const size_t PGS = 4 << 20;
    int fd = memfd_create("m", 0);
    if (fd < 0 || ftruncate(fd, PGS)) _exit(95);
    Bytes pat = rnd_bytes(l.num("seed"), PGS);
    if (write(fd, pat.data(), PGS) != (ssize_t)PGS) _exit(95);
    u64 span = (n / PGS + 3) * PGS;
    uint8_t* base = (uint8_t*)mmap((void*)0x200000000000ull, span, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    for (u64 o = 0; o < span; o += PGS)
      if (mmap(base + o, PGS, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) _exit(95);
    close(fd);
    bool one = a.compare(0, 4, "one_") == 0;
    string b = one ? a.substr(4) : a;
    int kind = a == "sha2w" ? 0 : alg_no(b);
    size_t dl = kind == 0 ? 64 : kind == 1 ? 48 : kind == 2 ? 32 : 80;
    u64 off = one || a == "sha2w" ? l.num("seed") % 64 : 0;
    Stream ref(kind);
    for (u64 at = off; at < n + off;) { size_t k = std::min<u64>(PGS - at % PGS, n + off - at); ref.add(pat.data() + at % PGS, k); at += k; }
    Bytes w = ref.end(kind == 2 ? 6 : 0x1f, dl);
    Buf o = place(1, dl, true, 1, 0, 0xAA), o2 = place(2, 64, true, 1, 0, 0xAA), cb = place(3, 512, false, 64, 0, 0x33);
    void* c = cb.p;
    GuardResult g = guarded([&] {
      if (a == "sha2w") { uint8_t* mm[2] = {base + off, base + off}; uint8_t* dd[2] = {o.p, o2.p}; lib_call(L->sha2w, (uint8_t**)mm, (size_t)n, (uint8_t**)dd); }
      else if (one) { if (kind == 2) lib_call(L->k_hash, 256, (const BitSequence*)(base + off), (DataLength)n * 8, (BitSequence*)o.p); else lib_call(kind == 3 ? L->k_shake128 : L->k_shake256, (const BitSequence*)(base + off), (DataLength)n * 8, (BitSequence*)o.p, (unsigned)dl); }
      else {
        if (sponge(kind)) lib_call(L->k_init, (hashState*)c, kind == 3 ? 128 : 256); else lib_call(kind ? L->s384_init : L->s512_init, c);
        u64 at = 0, piece = std::max<u64>(1, l.num("piece", 1 << 20));
        // one huge piece in the middle, small ones around it
        u64 first = std::min(n, piece), last = std::min(n - first, l.num("tail"));
        for (u64 k : {first, n - first - last, last}) {
          if (sponge(kind)) lib_call(L->k_update, (hashState*)c, (const BitSequence*)(base + at), (DataLength)k * 8); else lib_call(L->s384, c, (const void*)(base + at), (size_t)k);
          at += k;
        }
        if (kind == 2) lib_call(L->k_final, (hashState*)c, (BitSequence*)o.p);
        else if (sponge(kind)) lib_call(L->k_final2, (hashState*)c, (BitSequence*)o.p, (unsigned)dl);
        else lib_call(kind ? L->s384_close : L->s512_close, c, (void*)o.p);
      }
    });
    R->st->steps += 2;
    R->st->ops["long " + a]++;
    R->order(a);
    R->probe(n >= 1ull << 32 ? "message_of_2^32_bytes" : "message_of_2^32_bits");
    munmap(base, span);
    if (g.oc != OC_OK) R->fail("crash:long-" + a, a + fmt(" over %llu bytes ended with ", (unsigned long long)n) + g.text());
    if (memcmp(o.p, w.data(), dl) || (a == "sha2w" && memcmp(o2.p, w.data(), 64)))
      R->fail("wrong-digest:long-" + a, a + fmt(" over %llu bytes gave ", (unsigned long long)n) + hex(o.p, dl) + " instead of " + hex(w));
    R->ev("long " + a, w);
    for (auto* x : {&o, &o2, &cb}) buf_free(*x);
  }
}
World w_c04long() { return {"c04long", gen_long, exec_long}; }
