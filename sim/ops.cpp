#include "ops.hpp"
#include "aimed.hpp"
#include "lib.hpp"
#include <unistd.h>
#include <algorithm>
using std::string;

// ------------------------------------------------------------------ builds
#define DECL(P) \
  extern "C" { \
  extern const faz::eddsa::_struct_Ed255 P##Ed25519; \
  extern const faz::eddsa::_struct_Ed448 P##Ed448; \
  extern const faz::ecdh::X_ECDH P##X25519, P##X25519_x64, P##X448; \
  extern const faz::fp::PrimeField P##Fp25519, P##Fp448; \
  void P##h2c25519_x64(void*, uint8_t*, size_t); \
  void P##h2c25519_avx2(void*, uint8_t*, size_t); \
  void P##hash_to_field(uint64_t*, uint8_t, uint8_t*, size_t); \
  void P##hash_to_field_2w(uint64_t*, uint64_t*, uint8_t*, size_t); \
  int P##isOnCurve(void*); \
  int P##areEqual(void*, void*); \
  void P##print_point(FILE*, void*); \
  void P##sph_sha384_init(void*); \
  void P##sph_sha384(void*, const void*, size_t); \
  void P##sph_sha384_close(void*, void*); \
  void P##sph_sha384_addbits_and_close(void*, unsigned, unsigned, void*); \
  void P##sph_sha512_init(void*); \
  void P##sph_sha512_close(void*, void*); \
  void P##sph_sha512_addbits_and_close(void*, unsigned, unsigned, void*); \
  HashReturn P##Init(hashState*, int); \
  HashReturn P##Update(hashState*, const BitSequence*, DataLength); \
  HashReturn P##Final(hashState*, BitSequence*); \
  HashReturn P##Final2(hashState*, BitSequence*, unsigned); \
  HashReturn P##Hash(int, const BitSequence*, DataLength, BitSequence*); \
  HashReturn P##SHAKE128(const BitSequence*, DataLength, BitSequence*, unsigned); \
  HashReturn P##SHAKE256(const BitSequence*, DataLength, BitSequence*, unsigned); \
  void P##sha512_2w_avx(uint8_t**, size_t, uint8_t**); \
  void P##sha512_2w_avx_256b(uint8_t**, uint8_t**) __attribute__((weak)); \
  void P##sph_sha384_comp(const sph_u64*, sph_u64*); \
  void P##map_to_curve(void*, uint64_t*); \
  void P##map_to_curve_2w(void*, void*); \
  void P##_1way_fulladd_1w_full(void*, void*, void*); \
  } \
  static const Lib P##lib_table = {#P, &P##Ed25519, &P##Ed448, {&P##X25519, &P##X25519_x64, &P##X448}, {&P##Fp25519, &P##Fp448}, \
    {P##h2c25519_x64, P##h2c25519_avx2}, P##hash_to_field, P##hash_to_field_2w, P##isOnCurve, P##areEqual, P##print_point, \
    P##sph_sha384_init, P##sph_sha384, P##sph_sha384_close, P##sph_sha384_addbits_and_close, P##sph_sha512_init, \
    P##sph_sha512_close, P##sph_sha512_addbits_and_close, P##Init, P##Update, P##Final, P##Final2, P##Hash, P##SHAKE128, \
    P##SHAKE256, P##sha512_2w_avx, P##sha512_2w_avx_256b, P##sph_sha384_comp, \
    P##map_to_curve, P##map_to_curve_2w, P##_1way_fulladd_1w_full};
#undef sph_sha512
DECL()
#ifdef HAVE_NX
DECL(nx_)
#endif
#ifdef HAVE_NQ
DECL(nq_)
#endif
#ifdef HAVE_TR
DECL(tr_)
#endif
const Lib* g_libs[4] = {&lib_table,
#ifdef HAVE_NX
  &nx_lib_table,
#else
  &lib_table,
#endif
#ifdef HAVE_NQ
  &nq_lib_table,
#else
  &lib_table,
#endif
#ifdef HAVE_TR
  &tr_lib_table};
#else
  &lib_table};
#endif
#if defined(HAVE_NQ)
int g_nlibs = 3;
#elif defined(HAVE_NX)
int g_nlibs = 2;
#else
int g_nlibs = 1;
#endif

// ------------------------------------------------------------------ helpers
static Arg A(const string& n, const Bytes& d, size_t al = 1) { Arg a; a.name = n; a.data = d; a.align = al; return a; }
static Arg O(const string& n, size_t len, size_t al = 1) { Arg a; a.name = n; a.len = len; a.align = al; return a; }
static Bytes getb(const Line& l, const string& k, const string& d) { return spec_bytes(l.get(k, d)); }
static Bytes tweak(Bytes b, const string& t) {
  if (!t.empty()) apply_tweaks(b, split("x~" + t, '~'));
  return b;
}
static std::map<string, Bytes> g_pubmemo;
Bytes model_pub(const string& s, const Bytes& sk) {
  string k = s + hex(sk);
  auto it = g_pubmemo.find(k);
  if (it != g_pubmemo.end()) return it->second;
  if (g_pubmemo.size() > 20000) g_pubmemo.clear();
  Bytes r = s == "e25519" ? ref::Ed25519::pub(sk) : s == "e448" ? ref::Ed448::pub(sk) : s == "x25519" ? ref::x25519_base(sk) : ref::x448_base(sk);
  g_pubmemo[k] = r;
  return r;
}
// <pos>.<xor>~.. or n<1..3>
ref::Forger forger(const string& t) {
  ref::Forger f;
  if (t[0] == 'n') f.neutral = 1 + (int)(strtoul(t.c_str() + 1, 0, 10) + 2) % 3;
  else for (auto& w : split(t, '~')) {
    size_t dot = w.find('.');
    if (dot != string::npos) f.flips.push_back({strtoull(w.c_str(), 0, 10), (uint8_t)strtoul(w.c_str() + dot + 1, 0, 16)});
  }
  return f;
}
string gen_forger(Rng& r, size_t n) {
  if (r.chance(20)) return fmt("n%u", (unsigned)r.range(1, 3));
  u64 c = r.below(10);
  size_t pos = c < 4 ? r.below(n) : c < 8 ? n - 1 : c == 8 ? 0 : n - 1 - r.below(5);
  string t = fmt("%zu.%02x", pos, r.chance(50) ? 1u << r.below(8) : c < 8 && r.chance(30) ? 0x80u : (unsigned)r.range(1, 255));
  if (r.chance(25)) for (size_t i = pos; i-- && r.chance(90);) t += fmt("~%zu.%02x", i, (unsigned)r.range(1, 255));
  return t;
}
static std::unordered_map<string, Bytes> g_sigmemo;
static Bytes model_sign(bool e4, int v, const Bytes& sk, const Bytes& pk, const Bytes& m, const Bytes& c) {
  string k = fmt("%d%d", e4, v) + hex(sk) + hex(pk) + fmt("/%zu/%llx/", m.size(), (unsigned long long)hash_bytes(m.data(), m.size())) + hex(c);
  auto it = g_sigmemo.find(k);
  if (it != g_sigmemo.end()) return it->second;
  if (g_sigmemo.size() > 20000) g_sigmemo.clear();
  Bytes r = e4 ? ref::Ed448::sign(v, sk, pk, m, c) : ref::Ed25519::sign(v, sk, pk, m, c);
  g_sigmemo[k] = r;
  return r;
}
static std::unordered_map<string, Expect> g_exmemo;
const Expect& OpInst::expect() {
  auto it = g_exmemo.find(text);
  if (it != g_exmemo.end()) return it->second;
  if (g_exmemo.size() > 20000) g_exmemo.clear();
  return g_exmemo[text] = model();
}
static std::vector<size_t> cuts_of(const Line& l, size_t total) {
  std::vector<size_t> v;
  size_t left = total;
  if (l.has("cuts"))
    for (auto& s : split(l.get("cuts"), ',')) { size_t n = std::min<size_t>(left, strtoull(s.c_str(), 0, 10)); v.push_back(n); left -= n; }
  v.push_back(left);
  return v;
}

// ------------------------------------------------------------------ signatures
static void add_order(Bytes& sig, bool e4, u64 k) {  // S += k * order (mod 2^8n)
  size_t n = e4 ? 57 : 32;
  const uint64_t* L = e4 ? ref::L448() : ref::L25519();
  int N = e4 ? 7 : 4;
  while (k--) {
    unsigned c = 0;
    for (size_t i = 0; i < n; i++) {
      unsigned b = (int)(i / 8) < N ? (uint8_t)(L[i / 8] >> (8 * (i % 8))) : 0;
      c += sig[n + i] + b;
      sig[n + i] = (uint8_t)c;
      c >>= 8;
    }
  }
}
static Op op_ed(const Line& l, const string& kind) {
  bool e4 = kind.compare(0, 4, "e448") == 0;
  string what = kind.substr(kind.find('.') + 1);
  size_t K = e4 ? 57 : 32;
  const Lib* L = g_libs[l.num("lib") & 3];
  auto o = std::make_shared<OpInst>();
  int v = (int)l.num("v", e4 ? 1 : 0);
  Bytes sk = getb(l, "sk", fmt("r:1:%zu", K));
  sk.resize(K);
  if (what == "keygen") {
    o->in = {A("sk", sk)};
    o->out = {O("pk", K)};
    auto fn = e4 ? (v == 2 ? L->e448->PreHash.keygen : L->e448->PureContext.keygen)
                 : v == 0 ? L->e255->Pure.keygen : v == 1 ? L->e255->Context.keygen : L->e255->PreHash.keygen;
    o->call = [fn](uint8_t** in, uint8_t** out, uint8_t**) { return lib_call(fn, out[0], in[0]); };
    o->model = [=] { Expect e; e.rets = {0}; e.outs = {model_pub(e4 ? "e448" : "e25519", sk)}; return e; };
    return o;
  }
  Bytes m = getb(l, "m", "z:0"), c = getb(l, "c", "z:0");
  bool pure = !e4 && v == 0;
  if (what == "sign") {
    Bytes pk = l.has("pkl") ? getb(l, "pkl", "") : tweak(model_pub(e4 ? "e448" : "e25519", sk), l.get("pkx"));
    pk.resize(K);
    u64 clen = l.has("clen") ? l.num("clen") : c.size();
    o->in = {A("m", m), A("c", c), A("pk", pk), A("sk", sk)};
    o->out = {O("sig", 2 * K)};
    if (pure) {
      auto fn = L->e255->Pure.sign;
      size_t ml = m.size();
      o->call = [fn, ml](uint8_t** in, uint8_t** out, uint8_t**) { return lib_call(fn, out[0], (const uint8_t*)in[0], (uint64_t)ml, in[2], in[3]); };
    } else {
      auto fn = e4 ? (v == 2 ? L->e448->PreHash.sign : L->e448->PureContext.sign) : (v == 2 ? L->e255->PreHash.sign : L->e255->Context.sign);
      size_t ml = m.size();
      o->call = [fn, ml, clen](uint8_t** in, uint8_t** out, uint8_t**) {
        return lib_call(fn, out[0], (const uint8_t*)in[0], (uint64_t)ml, (const uint8_t*)in[1], clen, in[2], in[3]);
      };
    }
    o->model = [=] {
      Expect e;
      if (!pure && clen > 255) { e.rets = {V_CONTEXT}; e.touched = false; return e; }
      e.rets = {1};
      e.outs = {model_sign(e4, v, sk, pk, m, pure ? Bytes() : c)};
      return e;
    };
    return o;
  }
  if (what == "verify") {
    int sv = (int)l.num("sv", v);
    bool spure = !e4 && sv == 0;
    Bytes pk0 = model_pub(e4 ? "e448" : "e25519", sk);
    Bytes sig;
    if (l.has("craft")) {
      // neutral public key: any S with R = [S]B is valid, so S can be chosen
      Bytes S = getb(l, "craft", "");
      S.resize(K);
      if (e4) S[56] = 0;
      S = e4 ? ref::Ed448::reduce(S) : ref::Ed25519::reduce(S);
      sig = e4 ? ref::bmul<ref::E4>(S.data(), 57).enc() : ref::bmul<ref::E1>(S.data(), 32).enc();
      ref::app(sig, S);
      pk0.assign(K, 0);
      pk0[0] = 1;
    } else if (l.has("sigl")) sig = getb(l, "sigl", "");
    else sig = model_sign(e4, sv, sk, pk0, m, spure ? Bytes() : (c.size() > 255 ? Bytes(c.begin(), c.begin() + 255) : c));
    if ((!l.get("rx").empty() || l.has("rm")) && !l.has("craft")) {
      ref::Forger f;
      if (l.has("rm")) { f.reuse = true; f.other = getb(l, "rm", ""); }
      else f = forger(l.get("rx"));
      Bytes fc = spure ? Bytes() : (c.size() > 255 ? Bytes(c.begin(), c.begin() + 255) : c);
      sig = e4 ? ref::Ed448::sign(sv, sk, pk0, m, fc, &f) : ref::Ed25519::sign(sv, sk, pk0, m, fc, &f);
    }
    sig.resize(2 * K);
    if (l.num("sadd")) add_order(sig, e4, l.num("sadd"));
    sig = tweak(sig, l.get("sigx"));
    Bytes pk = l.has("pkl") ? getb(l, "pkl", "") : l.has("sk2") ? model_pub(e4 ? "e448" : "e25519", [&] { Bytes b = getb(l, "sk2", ""); b.resize(K); return b; }()) : pk0;
    pk.resize(K);
    pk = tweak(pk, l.get("pkx"));
    Bytes dm = tweak(l.has("m2") ? getb(l, "m2", "") : m, l.get("mx"));
    Bytes dc = tweak(l.has("c2") ? getb(l, "c2", "") : c, l.get("cx"));
    u64 clen = l.has("clen") ? l.num("clen") : dc.size();
    size_t ml = dm.size();
    o->in = {A("m", dm), A("c", dc), A("pk", pk), A("sig", sig)};
    if (pure) {
      auto fn = L->e255->Pure.verify;
      o->call = [fn, ml](uint8_t** in, uint8_t**, uint8_t**) { return lib_call(fn, (const uint8_t*)in[0], (uint64_t)ml, in[2], in[3]); };
    } else {
      auto fn = e4 ? (v == 2 ? L->e448->PreHash.verify : L->e448->PureContext.verify) : (v == 2 ? L->e255->PreHash.verify : L->e255->Context.verify);
      o->call = [fn, ml, clen](uint8_t** in, uint8_t**, uint8_t**) {
        return lib_call(fn, (const uint8_t*)in[0], (uint64_t)ml, (const uint8_t*)in[1], clen, in[2], in[3]);
      };
    }
    o->model = [=] {
      Expect e;
      int vd;
      if (!pure && clen > 255) {
        bool bad;
        if (e4) { ref::E4 t; bad = !ref::E4::dec(t, pk.data()); } else { ref::E1 t; bad = !ref::E1::dec(t, pk.data()); }
        e.rets = bad ? std::vector<u64>{V_CONTEXT, V_PUBKEY, V_INVALID} : std::vector<u64>{V_CONTEXT};
        e.verdict = 3;
        return e;
      }
      if (!l.has("craft") && pk == pk0 && sig == model_sign(e4, v, sk, pk0, dm, pure ? Bytes() : dc)) vd = 0;
      else vd = e4 ? ref::Ed448::verify(v, pk, dm, dc, sig) : ref::Ed25519::verify(v, pk, dm, pure ? Bytes() : dc, sig);
      e.verdict = vd == 3 ? 1 : vd;
      if (vd == 3) e.rets = {V_INVALID, V_OK};
      else if (vd == 0) e.rets = {V_OK};
      else if (vd == 1) e.rets = {V_INVALID};
      else e.rets = {V_PUBKEY};
      return e;
    };
    return o;
  }
  return nullptr;
}

// ------------------------------------------------------------------ agreement
static Op op_x(const Line& l, const string& kind) {
  const Lib* L = g_libs[l.num("lib") & 3];
  int e = (int)std::min<u64>(l.num("e"), 2);
  size_t K = e == 2 ? 56 : 32;
  string nm = e == 2 ? "x448" : "x25519";
  auto o = std::make_shared<OpInst>();
  Bytes k = getb(l, "k", fmt("r:1:%zu", K));
  k.resize(K);
  o->out = {O("out", K)};
  if (kind == "x.keygen") {
    o->in = {A("k", k)};
    auto fn = L->x[e]->keygen;
    o->call = [fn](uint8_t** in, uint8_t** out, uint8_t**) { return lib_call(fn, out[0], in[0]); };
    o->model = [=] { Expect x; x.rets = {0}; x.outs = {model_pub(nm, k)}; return x; };
    return o;
  }
  Bytes u;
  if (l.has("of")) { u = getb(l, "of", ""); u.resize(K); u = tweak(model_pub(nm, u), l.get("ux")); }
  else { u = getb(l, "u", fmt("r:2:%zu", K)); u.resize(K); }
  o->in = {A("k", k), A("u", u)};
  auto fn = L->x[e]->shared;
  o->call = [fn](uint8_t** in, uint8_t** out, uint8_t**) { return lib_call(fn, out[0], in[1], in[0]); };
  o->model = [=] { Expect x; x.rets = {0}; x.outs = {e == 2 ? ref::x448(k, u) : ref::x25519(k, u)}; return x; };
  return o;
}

// ------------------------------------------------------------------ hash to curve
static Op op_h2c(const Line& l, const string& kind) {
  const Lib* L = g_libs[l.num("lib") & 3];
  auto o = std::make_shared<OpInst>();
  if (kind == "h2c") {
    Bytes m = getb(l, "m", "z:0");
    auto fn = L->h2c[l.num("e") & 1];
    size_t n = m.size();
    o->in = {A("m", m)};
    o->out = {O("P", 64, 32)};
    o->vret = 1;
    o->call = [fn, n](uint8_t** in, uint8_t** out, uint8_t**) { u64 a[3] = {(u64)out[0], (u64)in[0], n}; lib_callv((void*)fn, 3, a); return (u64)0; };
    o->model = [=] { Expect e; e.outs = {ref::H2C::h2c(m)}; e.cmp = {MODP25519}; return e; };
    return o;
  }
  if (kind == "h2f") {
    Bytes m = getb(l, "m", "z:0");
    size_t n = m.size();
    o->in = {A("m", m)};
    o->vret = 1;
    if (l.num("e") & 1) {
      auto fn = L->h2f2;
      o->out = {O("u0", 32, 32), O("u1", 32, 32)};
      o->call = [fn, n](uint8_t** in, uint8_t** out, uint8_t**) { u64 a[4] = {(u64)out[0], (u64)out[1], (u64)in[0], n}; lib_callv((void*)fn, 4, a); return (u64)0; };
      o->model = [=] { Expect e; e.outs = {ref::H2C::field(0, m), ref::H2C::field(1, m)}; return e; };
    } else {
      auto fn = L->h2f;
      uint8_t pre = (uint8_t)l.num("pre");
      o->out = {O("u", 32, 32)};
      o->call = [fn, n, pre](uint8_t** in, uint8_t** out, uint8_t**) { u64 a[4] = {(u64)out[0], pre, (u64)in[0], n}; lib_callv((void*)fn, 4, a); return (u64)0; };
      o->model = [=] { Expect e; e.outs = {ref::H2C::field(pre, m)}; return e; };
    }
    return o;
  }
  if (kind == "m2c") {
    bool two = l.num("e") & 1;
    size_t n = two ? 64 : 32;
    Bytes u = getb(l, "u", "z:64");
    u.resize(n);
    o->in = {A("u", u, 32)};
    o->out = {O("P", two ? 256 : 128, 32)};
    o->vret = 1;
    if (two) {
      o->scr = {O("u0u1", 160, 32), O("lanes", 640, 32)};
      auto fn = L->m2c2;
      auto& M = L->fp[0]->_2w_red.arith.misc;
      void* un = (void*)M.unser;
      void* se = (void*)M.ser;
      o->call = [=](uint8_t** in, uint8_t** out, uint8_t** scr) {
        u64 a[2] = {(u64)scr[0], (u64)in[0]};
        lib_callv(un, 2, a);
        a[0] = (u64)scr[1]; a[1] = (u64)scr[0];
        lib_callv((void*)fn, 2, a);
        for (int i = 0; i < 4; i++) { a[0] = (u64)(out[0] + 64 * i); a[1] = (u64)(scr[1] + 160 * i); lib_callv(se, 2, a); }
        return (u64)0;
      };
    } else {
      auto fn = L->m2c;
      o->call = [fn](uint8_t** in, uint8_t** out, uint8_t**) { u64 a[2] = {(u64)out[0], (u64)in[0]}; lib_callv((void*)fn, 2, a); return (u64)0; };
    }
    o->model = [=] {
      Expect e;
      Bytes w;
      for (size_t i = 0; i < n; i += 32) { ref::E1 q = ref::H2C::map(Bytes(u.begin() + i, u.begin() + i + 32)); for (auto& c : {q.X, q.Y}) { Bytes b = c.bytes(); w.insert(w.end(), b.begin(), b.end()); } }
      e.outs = {w};
      e.cmp = {PROJ25519};
      return e;
    };
    return o;
  }
  if (kind == "fadd") {
    // a point in extended coordinates: of a message, scaled, coordinates not always least
    auto point = [&](const char* m, const char* z, const char* hi, const char* un) {
      ref::E1 q = ref::E1::zero();
      if (l.has(m)) { q = ref::H2C::map(ref::H2C::field(0, getb(l, m, ""))); }
      if (l.num(un)) { q.X = q.X.neg(); q.T = q.T.neg(); }
      Bytes zb = getb(l, z, "i:32");
      zb.resize(32);
      ref::F1 s = ref::F1::from(zb.data());
      if (s.is_zero()) s = ref::F1::num(1);
      Bytes w;
      int i = 0;
      for (auto& c : {q.X * s, q.Y * s, q.Z * s, q.T * s}) {
        Bytes b = c.bytes();
        if (l.num(hi) >> i++ & 1) {  // the other representation below 2^256
          u64 k[4], pp[4];
          memcpy(k, b.data(), 32);
          memcpy(pp, ref::P25519::p(), 32);
          unsigned __int128 t = 0;
          for (int j = 0; j < 4; j++) { t += (unsigned __int128)k[j] + pp[j]; k[j] = (u64)t; t >>= 64; }
          if (!t) memcpy(b.data(), k, 32);
        }
        w.insert(w.end(), b.begin(), b.end());
      }
      return w;
    };
    Bytes Q = point("qm", "qz", "qh", "qn"), P2 = point("pm", "pz", "ph", "pn");
    int al = (int)l.num("al") % 3;  // the sum over the first or the second operand
    auto fn = L->fadd;
    o->in = {A("Q", Q, 32), A("P", P2, 32)};
    o->out = {O("R", 128, 32)};
    o->vret = 1;
    o->call = [fn, al](uint8_t** in, uint8_t** out, uint8_t**) {
      if (al) memcpy(out[0], in[al - 1], 128);
      u64 a[3] = {(u64)out[0], (u64)(al == 1 ? out[0] : in[0]), (u64)(al == 2 ? out[0] : in[1])};
      lib_callv((void*)fn, 3, a);
      return (u64)0;
    };
    o->model = [=] {
      auto dec = [](const Bytes& b) { return ref::E1{ref::F1::from(&b[0]), ref::F1::from(&b[32]), ref::F1::from(&b[64]), ref::F1::from(&b[96])}; };
      ref::E1 s = dec(Q).add(dec(P2));
      ref::F1 zi = s.Z.inv();
      Expect e;
      Bytes w = (s.X * zi).bytes(), y = (s.Y * zi).bytes();
      w.insert(w.end(), y.begin(), y.end());
      e.outs = {w};
      e.cmp = {PROJ25519};
      return e;
    };
    return o;
  }
  // coordinates of a point: bit 0 of ..n turns X into -X, bit 1 Y into -Y, bit 2
  // swaps them; ..o bit 0, 1 replace one by the value in ..v; ..h takes the other
  // representation below 2^256
  auto pair = [&](const char* m, const char* p, const char* n, const char* ov, const char* v, const char* h, const char* x) {
    Bytes P = l.has(m) ? ref::H2C::h2c(getb(l, m, "")) : getb(l, p, "z:64");
    P.resize(64);
    Bytes w = getb(l, v, "z:32");
    w.resize(32);
    for (int i = 0; i < 2; i++) {
      if (l.num(n) >> i & 1) { Bytes b = ref::F1::from(&P[32 * i]).neg().bytes(); memcpy(&P[32 * i], b.data(), 32); }
      if (l.num(ov) >> i & 1) memcpy(&P[32 * i], w.data(), 32);
    }
    if (l.num(n) & 4) std::rotate(P.begin(), P.begin() + 32, P.end());
    for (int j = 0; j < 2; j++) {
      if (!(l.num(h) >> j & 1)) continue;
      u64 k[4], pp[4];
      memcpy(k, &P[32 * j], 32);
      memcpy(pp, ref::P25519::p(), 32);
      unsigned __int128 t = 0;
      for (int i = 0; i < 4; i++) { t += (unsigned __int128)k[i] + pp[i]; k[i] = (u64)t; t >>= 64; }
      if (!t) memcpy(&P[32 * j], k, 32);
    }
    return tweak(P, l.get(x));
  };
  Bytes P = pair("pm", "p", "pn", "po", "pv", "ph", "px");
  if (kind == "oncurve") {
    auto fn = L->oncurve;
    o->in = {A("P", P, 32)};
    o->call = [fn](uint8_t** in, uint8_t**, uint8_t**) { return lib_call(fn, (void*)in[0]); };
    o->model = [=] {
      Expect e;
      ref::F1 x = ref::F1::from(&P[0]), y = ref::F1::from(&P[32]), xx = x * x, yy = y * y;
      e.rets = {(u64)(yy - xx == ref::F1::num(1) + ref::E1::d() * xx * yy)};
      return e;
    };
    return o;
  }
  if (kind == "areeq") {
    Bytes Q = pair("qm", "q", "qn", "qo", "qv", "qh", "qx");
    auto fn = L->areeq;
    o->in = {A("P", P, 32), A("Q", Q, 32)};
    o->call = [fn](uint8_t** in, uint8_t**, uint8_t**) { return lib_call(fn, (void*)in[0], (void*)in[1]); };
    o->model = [=] {
      Expect e;
      e.rets = {(u64)(ref::F1::from(&P[0]) == ref::F1::from(&Q[0]) && ref::F1::from(&P[32]) == ref::F1::from(&Q[32]))};
      return e;
    };
    return o;
  }
  return nullptr;
}

// ------------------------------------------------------------------ hashing
// pieces of the message: one buffer, or each in a buffer of its own
static void pieces_in(OpInst& o, const Bytes& m, std::vector<size_t>& cuts, bool sep) {
  if (sep && cuts.size() > 7) { size_t rest = 0; while (cuts.size() > 6) { rest += cuts.back(); cuts.pop_back(); } cuts.push_back(rest); }
  if (!sep) { o.in = {A("m", m)}; return; }
  size_t at = 0;
  for (size_t i = 0; i < cuts.size(); i++) { o.in.push_back(A(fmt("m%zu", i), Bytes(m.begin() + at, m.begin() + at + cuts[i]))); at += cuts[i]; }
}
static std::vector<const uint8_t*> piece_ptrs(uint8_t** in, const std::vector<size_t>& cuts, bool sep) {
  std::vector<const uint8_t*> v;
  const uint8_t* p = in[0];
  for (size_t i = 0; i < cuts.size(); i++) { v.push_back(sep ? in[i] : p); p += cuts[i]; }
  return v;
}
static Op op_hash(const Line& l, const string& kind) {
  bool sep = l.num("sep");
  const Lib* L = g_libs[l.num("lib") & 3];
  auto o = std::make_shared<OpInst>();
  Bytes m = getb(l, "m", "z:0");
  o->vret = 1;
  if (kind == "sha2") {
    int b = l.num("b", 512) == 384 ? 384 : 512;
    unsigned nb = (unsigned)l.num("nb") & 7, xb = (unsigned)l.num("xb") & 255;
    auto cuts = cuts_of(l, m.size());
    pieces_in(*o, m, cuts, sep);
    o->out = {O("digest", b / 8)};
    o->scr = {O("ctx", sizeof(sph_sha512_context), 8)};
    o->call = [=](uint8_t** in, uint8_t** out, uint8_t** scr) {
      void* c = scr[0];
      lib_call(b == 384 ? L->s384_init : L->s512_init, c);
      auto pp = piece_ptrs(in, cuts, sep);
      for (size_t i = 0; i < cuts.size(); i++) lib_call(L->s384, c, (const void*)pp[i], cuts[i]);
      if (nb) lib_call(b == 384 ? L->s384_bits : L->s512_bits, c, xb, nb, (void*)out[0]);
      else lib_call(b == 384 ? L->s384_close : L->s512_close, c, (void*)out[0]);
      return (u64)0;
    };
    o->model = [=] { Expect e; e.outs = {ref::Sha2::hash(m, b, (int)nb, xb)}; return e; };
    return o;
  }
  if (kind == "sha3") {
    int b = (int)l.num("b", 256);
    if (b != 224 && b != 256 && b != 384 && b != 512) b = 256;
    auto cuts = cuts_of(l, m.size());
    bool one = !l.has("cuts");
    pieces_in(*o, m, cuts, sep && !one);
    o->out = {O("digest", b / 8)};
    if (!one) o->scr = {O("state", sizeof(hashState), 32)};
    o->call = [=](uint8_t** in, uint8_t** out, uint8_t** scr) {
      if (one) { lib_call(L->k_hash, b, (const BitSequence*)in[0], (DataLength)m.size() * 8, (BitSequence*)out[0]); return (u64)0; }
      hashState* s = (hashState*)scr[0];
      lib_call(L->k_init, s, b);
      auto pp = piece_ptrs(in, cuts, sep);
      for (size_t i = 0; i < cuts.size(); i++) lib_call(L->k_update, s, (const BitSequence*)pp[i], (DataLength)cuts[i] * 8);
      lib_call(L->k_final, s, (BitSequence*)out[0]);
      return (u64)0;
    };
    o->model = [=] { Expect e; e.outs = {ref::keccak(m, 200 - b / 4, 6, b / 8)}; return e; };
    return o;
  }
  if (kind == "shake") {
    int b = l.num("b", 256) == 128 ? 128 : 256;
    size_t d = l.num("d", 64);
    auto cuts = cuts_of(l, m.size());
    bool one = !l.has("cuts");
    pieces_in(*o, m, cuts, sep && !one);
    o->out = {O("digest", d)};
    if (!one) o->scr = {O("state", sizeof(hashState), 32)};
    o->call = [=](uint8_t** in, uint8_t** out, uint8_t** scr) {
      if (one) { lib_call(b == 128 ? L->k_shake128 : L->k_shake256, (const BitSequence*)in[0], (DataLength)m.size() * 8, (BitSequence*)out[0], (unsigned)d); return (u64)0; }
      hashState* s = (hashState*)scr[0];
      lib_call(L->k_init, s, b);
      auto pp = piece_ptrs(in, cuts, sep);
      for (size_t i = 0; i < cuts.size(); i++) lib_call(L->k_update, s, (const BitSequence*)pp[i], (DataLength)cuts[i] * 8);
      lib_call(L->k_final2, s, (BitSequence*)out[0], (unsigned)d);
      return (u64)0;
    };
    o->model = [=] { Expect e; e.outs = {b == 128 ? ref::shake128(m, d) : ref::shake256(m, d)}; return e; };
    return o;
  }
  if (kind == "sha2c") {  // the compression function over a message padded here
    Bytes pad = m;
    pad.push_back(0x80);
    while (pad.size() % 128 != 112) pad.push_back(0);
    for (int i = 15; i >= 0; i--) pad.push_back(i < 8 ? (uint8_t)((u64)m.size() * 8 >> 8 * i) : 0);
    bool big = l.num("b", 512) != 384;
    o->in.push_back(A("m", Bytes(pad.size()), 8));
    for (size_t i = 0; i < pad.size(); i++) o->in[0].data[i] = pad[i ^ 7];
    o->out = {O("d", 64, 8)};
    o->call = [=](uint8_t** in, uint8_t** out, uint8_t**) {
      static const u64 iv[2][8] = {{0xcbbb9d5dc1059ed8, 0x629a292a367cd507, 0x9159015a3070dd17, 0x152fecd8f70e5939, 0x67332667ffc00b31, 0x8eb44a8768581511, 0xdb0c2e0d64f98fa7, 0x47b5481dbefa4fa4},
                                   {0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1, 0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179}};
      memcpy(out[0], iv[big], 64);
      for (size_t i = 0; i < pad.size(); i += 128) lib_call(L->s384_comp, (const sph_u64*)(in[0] + i), (sph_u64*)out[0]);
      for (int i = 0; i < 64; i += 8) std::reverse(out[0] + i, out[0] + i + 8);
      if (!big) memset(out[0] + 48, 0, 16);
      return (u64)0;
    };
    o->model = [=] {
      Expect e;
      e.outs = {ref::Sha2::hash(m, big ? 512 : 384)};
      e.outs[0].resize(64);
      return e;
    };
    return o;
  }
  if (kind == "sha2w") {
    Bytes m2 = getb(l, "m2", "z:0");
    m2.resize(m.size());
    size_t n = m.size();
    auto fn = L->sha2w;
    auto fn32 = n == 32 && l.num("k") ? L->sha2w_256 : nullptr;
    o->in = {A("m", m), A("m2", m2)};
    o->out = {O("d0", 64), O("d1", 64)};
    o->call = [fn, fn32, n](uint8_t** in, uint8_t** out, uint8_t**) {
      uint8_t* mm[2] = {in[0], in[1]};
      uint8_t* dd[2] = {out[0], out[1]};
      if (fn32) lib_call(fn32, (uint8_t**)mm, (uint8_t**)dd);
      else lib_call(fn, (uint8_t**)mm, n, (uint8_t**)dd);
      return (u64)0;
    };
    o->model = [=] { Expect e; e.outs = {ref::sha512(m), ref::sha512(m2)}; return e; };
    return o;
  }
  return nullptr;
}

// ------------------------------------------------------------------ field
typedef void (*F2)(void*, void*);
typedef void (*F3)(void*, void*, void*);
struct FpTab { void *add, *sub, *mul, *sqr, *inv, *neg, *sgn, *cmp, *cmv, *ngz, *srt, *ser, *unser, *copy, *zero, *prime, *cfast, *addsub, *comp2, *mul2, *sqr2, *red2, *a24, *imul, *isqr, *red, *comp, *nfast, *lar, *inter, *deinter, *un1, *se1; size_t elt; int lanes; };
static FpTab fp_tab(const faz::fp::PrimeField* F, int f, const string& e) {
  FpTab t;
  memset(&t, 0, sizeof t);
  auto misc = [&](auto& m) { t.ser = (void*)m.ser; t.unser = (void*)m.unser; t.copy = (void*)m.copy; t.zero = (void*)m.zero; };
  if (e == "1f" || e == "1r") {
    const auto& a = e == "1f" ? F->_1w_full.arith : F->_1w_red.arith;
    t.add = (void*)a.add; t.sub = (void*)a.sub; t.mul = (void*)a.mul; t.sqr = (void*)a.sqr; t.inv = (void*)a.inv; t.neg = (void*)a.neg;
    t.sgn = (void*)a.sgn; t.cmp = (void*)a.cmp; t.cmv = (void*)a.cmv; t.srt = (void*)a.srt; t.prime = (void*)a.prime;
    misc(a.misc);
    if (e == "1f") {
      const auto& x = F->_1w_full.arithex;
      t.mul2 = (void*)x.intmul2; t.sqr2 = (void*)x.intsqr2; t.red2 = (void*)x.reduce2; t.a24 = (void*)x.mula24;
      t.imul = (void*)x.intmul; t.isqr = (void*)x.intsqr; t.red = (void*)x.reduce;
    } else { t.cfast = (void*)F->_1w_red.arithex.compressfast; t.addsub = (void*)F->_1w_red.arithex.addsub; t.imul = (void*)F->_1w_red.arithex.intmul; t.comp = (void*)F->_1w_red.arithex.compress; }
    t.lanes = 1;
    t.elt = f ? (e == "1f" ? 56 : 128) : (e == "1f" ? 32 : 96);
  } else if (e == "2r") {
    const auto& a = F->_2w_red.arith;
    t.add = (void*)a.add; t.sub = (void*)a.sub; t.mul = (void*)a.mul; t.sqr = (void*)a.sqr; t.neg = (void*)a.neg; t.sgn = (void*)a.sgn;
    t.cmp = (void*)a.cmp; t.cmv = (void*)a.cmv; t.ngz = (void*)a.ngz;
    misc(a.misc);
    t.cfast = (void*)F->_2w_red.arithex.compressfast; t.addsub = (void*)F->_2w_red.arithex.addsub; t.comp2 = (void*)F->_2w_red.arithex.compress2;
    const auto& x = F->_2w_red.arithex;
    t.imul = (void*)x.intmul; t.isqr = (void*)x.intsqr; t.comp = (void*)x.compress; t.inter = (void*)x.inter; t.deinter = (void*)x.deinter;
    t.un1 = (void*)F->_1w_red.arith.misc.unser; t.se1 = (void*)F->_1w_red.arith.misc.ser;
    t.lanes = 2;
    t.elt = f ? 256 : 160;
  } else {
    const auto& a = F->_4w_red.arith;
    t.add = (void*)a.add; t.sub = (void*)a.sub; t.mul = (void*)a.mul; t.sqr = (void*)a.sqr; t.neg = (void*)a.neg; t.cmp = (void*)a.cmp; t.ngz = (void*)a.ngz; t.srt = (void*)a.srt;
    misc(a.misc);
    t.cfast = (void*)F->_4w_red.arithex.compressfast; t.addsub = (void*)F->_4w_red.arithex.addsub; t.comp2 = (void*)F->_4w_red.arithex.compress2;
    const auto& x = F->_4w_red.arithex;
    t.imul = (void*)x.intmul; t.isqr = (void*)x.intsqr; t.comp = (void*)x.compress; t.nfast = (void*)x.new_compressfast2; t.lar = (void*)x.addsublar;
    t.lanes = 4;
    t.elt = f ? 512 : 320;
  }
  return t;
}
// calls with a vector result or argument cannot go through the trampoline
typedef __m256i (*V1)(void*);
typedef __m256i (*V2)(void*, void*);
typedef void (*VC)(__m256i, void*, void*, void*);
// the model of one lane
template <class F> static Bytes fp_model(const string& o, const Bytes& a, const Bytes& b, u64 k) {
  F x = F::from(a.data()), y = F::from(b.data()), r = x;
  if (o == "add") r = x + y;
  else if (o == "sub") r = x - y;
  else if (o == "mul" || o == "imul") r = x * y;
  else if (o == "isqr") r = x * x;
  else if (o == "srt") r = ref::root_of_square(x);
  else if (o == "dadd") r = x * y + y * y;
  else if (o == "dsub") r = x * y - y * y;
  else if (o == "sqr") r = x * x;
  else if (o == "inv") r = x.inv();
  else if (o == "neg" || o == "ngz") r = x.neg();
  else if (o == "id" || o == "copy") r = x;
  else if (o == "zero" || o == "prime") r = F::zero();
  else if (o == "cmv") r = k ? y : x;
  else if (o == "a24") {
    r = F::zero();
    for (u64 m = sizeof(x) > 40 ? 39082 : 121666, s = 1ull << 20; s; s >>= 1) { r = r + r; if (m & s) r = r + x; }
  } else if (o == "poly") {  // a fixed chain: ((x+y)*x - y)^2 * y - x
    F t = (x + y) * x - y;
    r = t * t * y - x;
  }
  return r.bytes();
}
static bool fp_has(const FpTab& t, const string& o) {
  if (o == "id") return true;
  if (o == "poly") return t.add && t.sub && t.mul && t.sqr;
  if (o == "addsub") return t.addsub;
  if (o == "mul2") return t.mul2;
  if (o == "sqr2") return t.sqr2;
  if (o == "a24") return t.a24;
  if (o == "imul") return t.imul;
  if (o == "isqr") return t.isqr;
  if (o == "nfast") return t.nfast;
  if (o == "lar") return t.lar;
  if (o == "inter") return t.inter;
  void* p = o == "add" ? t.add : o == "sub" ? t.sub : o == "mul" ? t.mul : o == "sqr" ? t.sqr : o == "inv" ? t.inv : o == "neg" ? t.neg
            : o == "sgn" ? t.sgn : o == "cmp" ? t.cmp : o == "cmv" ? t.cmv : o == "ngz" ? t.ngz : o == "srt" ? t.srt : o == "copy" ? t.copy
            : o == "zero" ? t.zero : o == "prime" ? t.prime : nullptr;
  return p != nullptr;
}
bool fp_supports(int f, const string& e, const string& o) { static std::map<string, bool> m; string k = std::to_string(f) + e + o; auto it = m.find(k); if (it != m.end()) return it->second; return m[k] = fp_has(fp_tab(g_libs[0]->fp[f], f, e), o); }
// takes as much as fits below p out of x
static void fp_take(int f, uint8_t* x, uint8_t* part) {
  const int n = f ? 7 : 4;
  u64 w[7], m[7];
  memcpy(w, x, 8 * n);
  memcpy(m, f ? ref::P448::p() : ref::P25519::p(), 8 * n);
  m[0]--;
  bool less = true;  // w <= m
  for (int i = n - 1; i >= 0; i--) if (w[i] != m[i]) { less = w[i] < m[i]; break; }
  if (less) { memcpy(part, w, 8 * n); memset(x, 0, 8 * n); return; }
  memcpy(part, m, 8 * n);
  u64 c = 0;
  for (int i = 0; i < n; i++) { unsigned __int128 d = (unsigned __int128)w[i] - m[i] - c; w[i] = (u64)d; c = (u64)(d >> 64) & 1; }
  memcpy(x, w, 8 * n);
}
static Op op_fp(const Line& l) {
  const Lib* L = g_libs[l.num("lib") & 3];
  int f = l.num("f") == 448 ? 1 : 0;
  string e = l.get("e", "1f"), o = l.get("o", "mul");
  FpTab t = fp_tab(L->fp[f], f, e);
  if (!fp_has(t, o)) o = "id";
  size_t B = f ? 56 : 32, N = t.lanes;
  Bytes a = getb(l, "a", "z:0"), b = getb(l, "b", "z:0");
  a.resize(B * N);
  b.resize(B * N);
  u64 k = l.num("k") & 1, lo = t.add ? l.num("lo") & 3 : 0;
  auto op = std::make_shared<OpInst>();
  op->in = {A("a", a, 32), A("b", b, 32)};
  bool scalar = o == "cmp" || o == "sgn";
  bool two = o == "addsub" || o == "mul2" || o == "sqr2" || o == "nfast" || o == "lar" || o == "inter";
  op->out = {O("c", scalar ? 4 * N : B * N, scalar ? 8 : 32)};
  if (two) op->out.push_back(O("d", B * N, 32));
  op->scr = {O("ea", t.elt, 32), O("eb", t.elt, 32), O("ec", t.elt, 32)};
  if (two) op->scr.push_back(O("ed", t.elt, 32));
  if (o == "srt") op->scr.push_back(O("ed", t.elt, 32));
  if (o == "imul" || o == "isqr") op->scr.push_back(O("eb2", 2 * t.elt, 32));
  if (o == "inter") { size_t h = f ? 128 : 96; for (int i = 0; i < 6; i++) op->scr.push_back(O("h" + std::to_string(i), h, 32)); }
  if (o == "mul2" || o == "sqr2") op->scr = {O("ab", 2 * B, 32), O("ba", 2 * B, 32), O("buf", 4 * B, 32), O("res", 2 * B, 32)};
  const size_t at = op->scr.size();
  if (lo) { op->scr.push_back(O("lt", B * N, 32)); op->scr.push_back(O("le", t.elt, 32)); }
  op->vret = 1;
  op->call = [=](uint8_t** in, uint8_t** out, uint8_t** s) {
    uint8_t *ea = s[0], *eb = s[1], *ec = s[2];
    auto fast = [&](void* x) { if (t.cfast) lib_call((void (*)(void*))t.cfast, x); };
    // an operand as it is written, or the same number as a sum of three
    // (elements that come out of other operations need not be less than p)
    auto load = [&](void* to, uint8_t* from, bool loose) {
      if (!loose) { lib_call((F2)t.unser, to, (void*)from); return; }
      Bytes left(from, from + B * N);
      for (int part = 0; part < 3; part++) {
        for (size_t i = 0; i < N; i++) fp_take(f, &left[B * i], s[at] + B * i);
        lib_call((F2)t.unser, part ? (void*)s[at + 1] : to, (void*)s[at]);
        if (part) { lib_call((F3)t.add, to, to, (void*)s[at + 1]); fast(to); }
      }
    };
    if (o == "mul2" || o == "sqr2") {
      // [a|b] * [b|a] and [a|b]^2, two products at once
      load(out[0], in[0], lo & 1);
      load(out[1], in[1], lo & 2);
      memcpy(s[0], out[0], B); memcpy(s[0] + B, out[1], B); memcpy(s[1], out[1], B); memcpy(s[1] + B, out[0], B);
      arena_protect_at(s[0], true);
      arena_protect_at(s[1], true);
      if (o == "mul2") lib_call((F3)t.mul2, (void*)s[2], (void*)s[0], (void*)s[1]);
      else lib_call((F2)t.sqr2, (void*)s[2], (void*)s[0]);
      arena_protect_at(s[2], true);
      lib_call((F2)t.red2, (void*)s[3], (void*)s[2]);
      for (int i = 0; i < 3; i++) arena_protect_at(s[i], false);
      // serialise from aligned places
      memcpy(s[0], s[3], B);
      memcpy(s[1], s[3] + B, B);
      lib_call((F2)t.ser, (void*)out[0], (void*)s[0]);
      lib_call((F2)t.ser, (void*)out[1], (void*)s[1]);
      return (u64)0;
    }
    load(ea, in[0], lo & 1);
    load(eb, in[1], lo & 2);
    // operands that are only read lie in read-only memory during the operation
    bool inplace = o == "sqr" || o == "neg";
    struct Guard { uint8_t *x, *y; ~Guard() { if (x) arena_protect_at(x, false); arena_protect_at(y, false); } } guard{inplace ? nullptr : ea, eb};
    if (!inplace) arena_protect_at(ea, true);
    arena_protect_at(eb, true);
    void* r = ec;
    if (scalar) {
      int32_t* res = (int32_t*)out[0];
      if (N == 1) res[0] = (o == "cmp" ? (int)lib_call((int (*)(void*, void*))t.cmp, (void*)ea, (void*)eb) : (int)lib_call((int (*)(void*))t.sgn, (void*)ea)) != 0;
      else {
        __m256i v = o == "cmp" ? ((V2)t.cmp)(ea, eb) : ((V1)t.sgn)(ea);
        int64_t w[4];
        memcpy(w, &v, 32);
        for (size_t i = 0; i < N; i++) res[i] = w[N == 2 ? 2 * i : i] != 0;
      }
      return (u64)0;
    }
    if (o == "add") lib_call((F3)t.add, (void*)ec, (void*)ea, (void*)eb);
    else if (o == "sub") lib_call((F3)t.sub, (void*)ec, (void*)ea, (void*)eb);
    else if (o == "mul") lib_call((F3)t.mul, (void*)ec, (void*)ea, (void*)eb);
    else if (o == "sqr") { lib_call((void (*)(void*))t.sqr, (void*)ea); r = ea; }
    else if (o == "neg") { lib_call((void (*)(void*))t.neg, (void*)ea); r = ea; }
    else if (o == "inv") lib_call((F2)t.inv, (void*)ec, (void*)ea);
    else if (o == "ngz") lib_call((F2)t.ngz, (void*)ec, (void*)ea);
    else if (o == "copy") lib_call((F2)t.copy, (void*)ec, (void*)ea);
    else if (o == "zero") lib_call((void (*)(void*))t.zero, (void*)ec);
    else if (o == "prime") lib_call((void (*)(void*))t.prime, (void*)ec);
    else if (o == "srt") {  // of a square; what the output held before is no operand
      lib_call((F2)t.copy, (void*)ec, (void*)eb);
      lib_call((F2)t.copy, (void*)s[3], (void*)ea);
      lib_call((void (*)(void*))t.sqr, (void*)s[3]);
      arena_protect_at(s[3], true);
      lib_call((F2)t.srt, (void*)ec, (void*)s[3]);
      arena_protect_at(s[3], false);
    }
    else if (o == "cmv") {
      if (N == 1) lib_call((void (*)(int, void*, void*, void*))t.cmv, (int)k, (void*)ec, (void*)ea, (void*)eb);
      else ((VC)t.cmv)(_mm256_set1_epi64x(k ? -1 : 0), ec, ea, eb);
    } else if (o == "poly") {
      lib_call((F3)t.add, (void*)ec, (void*)ea, (void*)eb);
      fast(ec);
      lib_call((F3)t.mul, (void*)ec, (void*)ec, (void*)ea);
      lib_call((F3)t.sub, (void*)ec, (void*)ec, (void*)eb);
      fast(ec);
      lib_call((void (*)(void*))t.sqr, (void*)ec);
      lib_call((F3)t.mul, (void*)ec, (void*)ec, (void*)eb);
      lib_call((F3)t.sub, (void*)ec, (void*)ec, (void*)ea);
      fast(ec);
    } else if (o == "imul" || o == "isqr") {
      // the product before reduction, then the reduction
      bool m = o == "imul";
      if (t.red) {
        if (m) lib_call((F3)t.imul, (void*)s[3], (void*)ea, (void*)eb);
        else lib_call((F2)t.isqr, (void*)s[3], (void*)ea);
        arena_protect_at(s[3], true);
        lib_call((F2)t.red, (void*)ec, (void*)s[3]);
        arena_protect_at(s[3], false);
      } else {
        if (m) lib_call((F3)t.imul, (void*)ec, (void*)ea, (void*)eb);
        else { lib_call((F2)t.copy, (void*)ec, (void*)ea); lib_call((void (*)(void*))t.isqr, (void*)ec); }
        if (l.num("k") & 1) fast(ec);
        lib_call((void (*)(void*))t.comp, (void*)ec);
      }
    } else if (o == "nfast") {
      uint8_t* ed = s[3];
      lib_call((F3)t.add, (void*)ec, (void*)ea, (void*)eb);
      lib_call((F3)t.sub, (void*)ed, (void*)ea, (void*)eb);
      lib_call((F2)t.nfast, (void*)ec, (void*)ed);
      lib_call((F2)t.ser, (void*)out[1], (void*)ed);
    } else if (o == "lar") {
      uint8_t* ed = s[3];
      lib_call((F3)t.imul, (void*)ec, (void*)ea, (void*)eb);
      lib_call((F3)t.imul, (void*)ed, (void*)eb, (void*)eb);
      lib_call((F2)t.lar, (void*)ec, (void*)ed);
      lib_call((F2)t.comp2, (void*)ec, (void*)ed);
      lib_call((F2)t.ser, (void*)out[1], (void*)ed);
    } else if (o == "inter") {
      // lane 0 of a and lane 1 of b into one pair, and a pair taken apart
      uint8_t *x0 = s[4], *x1 = s[5], *y0 = s[6], *y1 = s[7];
      memcpy(s[8], in[0], B);
      memcpy(s[9], in[1] + B, B);
      lib_call((F2)t.un1, (void*)x0, (void*)s[8]);
      lib_call((F2)t.un1, (void*)x1, (void*)s[9]);
      arena_protect_at(x0, true);
      arena_protect_at(x1, true);
      lib_call((F3)t.inter, (void*)ec, (void*)x0, (void*)x1);
      arena_protect_at(x0, false);
      arena_protect_at(x1, false);
      lib_call((F3)t.deinter, (void*)y0, (void*)y1, (void*)ea);
      lib_call((F2)t.se1, (void*)s[8], (void*)y0);
      lib_call((F2)t.se1, (void*)s[9], (void*)y1);
      memcpy(out[1], s[8], B);
      memcpy(out[1] + B, s[9], B);
    } else if (o == "a24") lib_call((F2)t.a24, (void*)ec, (void*)ea);
    else if (o == "addsub") {
      uint8_t* ed = s[3];
      lib_call((F2)t.copy, (void*)ec, (void*)ea);
      lib_call((F2)t.copy, (void*)ed, (void*)eb);
      if (N == 4) lib_call((void (*)(void*, void*, void*, void*))t.addsub, (void*)ec, (void*)ed, (void*)ea, (void*)eb);
      else lib_call((F2)t.addsub, (void*)ec, (void*)ed);
      if (t.comp2) lib_call((F2)t.comp2, (void*)ec, (void*)ed);
      else { fast(ec); fast(ed); }
      lib_call((F2)t.ser, (void*)out[1], (void*)ed);
    } else r = ea;
    arena_protect_at(r, true);
    lib_call((F2)t.ser, (void*)out[0], r);
    arena_protect_at(r, false);
    return (u64)0;
  };
  op->model = [=] {
    Expect x;
    Bytes r;
    if (scalar) {
      for (size_t i = 0; i < N; i++) {
        Bytes ai(a.begin() + B * i, a.begin() + B * (i + 1)), bi(b.begin() + B * i, b.begin() + B * (i + 1));
        bool v;
        if (f) v = o == "cmp" ? !(ref::F4::from(ai.data()) == ref::F4::from(bi.data())) : ref::F4::from(ai.data()).odd();
        else v = o == "cmp" ? !(ref::F1::from(ai.data()) == ref::F1::from(bi.data())) : ref::F1::from(ai.data()).odd();
        r.push_back(v); r.push_back(0); r.push_back(0); r.push_back(0);
      }
      x.outs = {r};
      return x;
    }
    if (two) {
      Bytes r2;
      for (size_t i = 0; i < N; i++) {
        Bytes ai(a.begin() + B * i, a.begin() + B * (i + 1)), bi(b.begin() + B * i, b.begin() + B * (i + 1));
        for (int h = 0; h < 2; h++) {
          string w = o == "addsub" || o == "nfast" ? (h ? "sub" : "add") : o == "mul2" ? "mul" : o == "sqr2" ? "sqr" : o == "lar" ? (h ? "dsub" : "dadd") : "id";
          const Bytes& x0 = (o == "sqr2" && h) || (o == "inter" && !h && i) ? bi : ai;
          Bytes c = f ? fp_model<ref::F4>(w, x0, bi, k) : fp_model<ref::F1>(w, x0, bi, k);
          Bytes& to = h ? r2 : r;
          to.insert(to.end(), c.begin(), c.end());
        }
      }
      x.outs = {r, r2};
      return x;
    }
    for (size_t i = 0; i < N; i++) {
      // ngz: [-x0 | x1] with two lanes, [x1 | x0 | -x2 | x3] with four
      size_t j = o == "ngz" && N == 4 && i < 2 ? 1 - i : i;
      string oi = o == "ngz" ? (i == (N == 2 ? 0u : 2u) ? "neg" : "id") : o;
      Bytes ai(a.begin() + B * j, a.begin() + B * (j + 1)), bi(b.begin() + B * i, b.begin() + B * (i + 1));
      Bytes c = f ? fp_model<ref::F4>(oi, ai, bi, k) : fp_model<ref::F1>(oi, ai, bi, k);
      r.insert(r.end(), c.begin(), c.end());
    }
    x.outs = {r};
    return x;
  };
  return op;
}

static string fp_operand(Rng& r, int f, int lanes);
// Many operands, one after another, with the same operation.
static Op op_fps(const Line& l) {
  int f = l.num("f") == 448;
  string e = l.get("e", "1f"), o = l.get("o", "mul");
  const int lanes = e[0] - '0';
  const size_t n = std::max<u64>(1, std::min<u64>(l.num("n", 1), 40)), skip = std::min<u64>(l.num("skip"), 40);
  Rng r(l.num("s"));
  const u64 lo = l.num("lo");
  Bytes a0, b0;
  auto ops = std::make_shared<std::vector<Op>>();
  for (size_t i = 0; i < skip + n; i++) {
    string a = fp_operand(r, f, lanes), b = r.chance(12) ? a : fp_operand(r, f, lanes);
    if (r.chance(40)) gen_related(r, f, o, a, b);
    if (i < skip) continue;
    Line c("op");
    c.set("op", "fp").set("f", f ? 448 : 25519).set("e", e).set("o", o).set("a", a).set("b", b).set("k", i & 1).set("lib", l.num("lib"));
    c.set("lo", lo);
    ops->push_back(op_fp(c));
    const Bytes &x = ops->back()->in[0].data, &y = ops->back()->in[1].data;
    a0.insert(a0.end(), x.begin(), x.end());
    b0.insert(b0.end(), y.begin(), y.end());
  }
  auto op = std::make_shared<OpInst>();
  const OpInst& one = *ops->front();
  op->in = {A("a", a0, 32), A("b", b0, 32)};
  const size_t no = one.out.size(), ns = one.scr.size(), q = one.in[0].data.size();
  std::vector<size_t> w;
  op->scr = one.scr;
  for (auto& x : one.in) op->scr.push_back(O(x.name + "1", q, 32));
  for (auto& x : one.out) {
    w.push_back(x.len);
    op->out.push_back(O(x.name, x.len * n, 32));
    op->scr.push_back(O(x.name + "1", x.len, 32));
  }
  op->vret = 1;
  op->call = [=](uint8_t** in, uint8_t** out, uint8_t** s) {
    for (size_t i = 0; i < n; i++) {
      uint8_t *pi[2] = {s[ns], s[ns + 1]}, *po[2] = {s[ns + 2], no > 1 ? s[ns + 3] : nullptr};
      memcpy(pi[0], in[0] + i * q, q);
      memcpy(pi[1], in[1] + i * q, q);
      for (size_t j = 0; j < no; j++) memcpy(po[j], out[j] + i * w[j], w[j]);
      (*ops)[i]->call(pi, po, s);
      for (size_t j = 0; j < no; j++) memcpy(out[j] + i * w[j], po[j], w[j]);
    }
    return (u64)0;
  };
  op->model = [=] {
    Expect x = (*ops)[0]->model();
    for (size_t i = 1; i < n; i++) {
      Expect y = (*ops)[i]->model();
      for (size_t j = 0; j < no; j++) x.outs[j].insert(x.outs[j].end(), y.outs[j].begin(), y.outs[j].end());
    }
    return x;
  };
  return op;
}

Op make_op(const Line& l) {
  string k = l.get("k0", "");
  // the verb is "op"; the first key names the kind
  k = l.get("op");
  Op o;
  if (k.compare(0, 3, "e25") == 0 || k.compare(0, 3, "e44") == 0) o = op_ed(l, k);
  else if (k.compare(0, 2, "x.") == 0) o = op_x(l, k);
  else if (k == "h2c" || k == "h2f" || k == "oncurve" || k == "areeq" || k == "m2c" || k == "fadd") o = op_h2c(l, k);
  else if (k == "sha2" || k == "sha3" || k == "shake" || k == "sha2w" || k == "sha2c") o = op_hash(l, k);
  else if (k == "fp") o = op_fp(l);
  else if (k == "fps") o = op_fps(l);
  if (!o) { fprintf(stderr, "sim: bad op %s\n", l.text().c_str()); _exit(96); }
  o->name = k;
  Line t = l;
  t.verb = "op";
  std::vector<std::pair<string, string>> kv;
  static const std::set<string> placing = {"pl", "fill", "ro", "poison", "at", "lib", "cl", "rep", "id"};
  for (auto& p : t.kv) if (!placing.count(p.first)) kv.push_back(p);
  t.kv = kv;
  o->text = t.text();
  return o;
}

// ------------------------------------------------------------------ execution
u64 op_place_seed(const Line& l) { return l.has("pl") ? l.num("pl") : 0; }
void Placed::put(const Op& o, u64 pl, unsigned fill, bool ro, const string& at) {
  op = o;
  auto one = [&](const Arg& a, size_t len, char tag) {
    u64 h = mix64(pl ^ hash_str(string(1, tag) + a.name));
    bool end = at.empty() ? h & 1 : at == "e";
    size_t off = !at.empty() || (h >> 1) & 1 ? 0 : (h >> 2) % 200;
    return place((h >> 20), len, end, a.align, off, (uint8_t)(fill ^ (tag == 'i' ? 0x5A : 0)));
  };
  for (auto& a : o->in) {
    Buf b = one(a, a.data.size(), 'i');
    if (!a.data.empty()) memcpy(b.p, a.data.data(), a.data.size());
    if (ro) buf_protect(b, true);
    // the common way to pass nothing
    if (a.data.empty() && at.empty() && mix64(pl ^ hash_str("null" + a.name)) % 3 == 0) null |= 1u << in.size();
    in.push_back(b);
  }
  if (null) R->probe("null_pointer_for_nothing");
  for (auto& a : o->out) { out.push_back(one(a, a.len, 'o')); before.push_back(Bytes(a.len, (uint8_t)fill)); }
  for (auto& a : o->scr) scr.push_back(one(a, a.len, 's'));
}
void Placed::call_raw() {
  uint8_t *pi[16], *po[16], *ps[16];
  for (size_t i = 0; i < in.size(); i++) pi[i] = null >> i & 1 ? nullptr : in[i].p;
  for (size_t i = 0; i < out.size(); i++) po[i] = out[i].p;
  for (size_t i = 0; i < scr.size(); i++) ps[i] = scr[i].p;
  ret = op->call(pi, po, ps);
  done = true;
}
void Placed::run() {
  g = guarded([&] { call_raw(); });
}
void Placed::release() {
  for (auto& b : in) buf_free(b);
  for (auto& b : out) buf_free(b);
  for (auto& b : scr) buf_free(b);
}
static bool eq_mod(const uint8_t* a, const Bytes& want) {
  for (size_t i = 0; i + 32 <= want.size(); i += 32) if (ref::F1::from(a + i).bytes() != Bytes(want.begin() + i, want.begin() + i + 32)) return false;
  return true;
}
// points given as X.. Y.. Z.. T.. (lanes side by side), each the wanted affine point
static bool eq_proj(const uint8_t* a, const Bytes& want) {
  size_t n = want.size() / 64;
  for (size_t i = 0; i < n; i++) {
    ref::F1 c[4];
    for (size_t j = 0; j < 4; j++) c[j] = ref::F1::from(a + 32 * (j * n + i));
    if (c[2].is_zero() || !(c[0] * c[1] == c[2] * c[3])) return false;
    if (!(c[0] == ref::F1::from(&want[64 * i]) * c[2]) || !(c[1] == ref::F1::from(&want[64 * i + 32]) * c[2])) return false;
  }
  return true;
}
static string short_hex(const uint8_t* p, size_t n) { return n <= 40 ? hex(p, n) : hex(p, 16) + ".." + hex(p + n - 8, 8); }
void Placed::check(const string& what, bool need_result) {
  const string& n = op->name;
  if (g.oc != OC_OK && g.oc != OC_ABANDON) R->fail("crash:" + n, what + ": " + n + " ended with " + g.text() + " [" + op->text.substr(0, 300) + "]");
  for (size_t i = 0; i < in.size(); i++) {
    if (!op->in[i].data.empty() && memcmp(in[i].p, op->in[i].data.data(), op->in[i].data.size()))
      R->fail("input-changed:" + n, what + ": " + n + " changed its input " + op->in[i].name + " [" + op->text.substr(0, 300) + "]");
    string s = buf_check_surroundings(in[i]);
    if (!s.empty()) R->fail("stray-write:" + n, what + ": " + n + " wrote near input " + op->in[i].name + ": " + s);
  }
  for (size_t i = 0; i < out.size(); i++) {
    string s = buf_check_surroundings(out[i]);
    if (!s.empty()) R->fail("stray-write:" + n, what + ": " + n + " wrote outside its output " + op->out[i].name + ": " + s + " [" + op->text.substr(0, 300) + "]");
  }
  for (size_t i = 0; i < scr.size(); i++) {
    string s = buf_check_surroundings(scr[i]);
    if (!s.empty()) R->fail("stray-write:" + n, what + ": " + n + " wrote outside its context: " + s);
  }
  if (!need_result || g.oc != OC_OK) return;
  const Expect& e = op->expect();
  u64 r = op->vret ? 0 : (u64)(uint32_t)ret;
  if (!op->vret && !e.rets.empty() && std::find(e.rets.begin(), e.rets.end(), r) == e.rets.end())
    R->fail("wrong-code:" + n, what + ": " + n + fmt(" returned %llu instead of %llu", (unsigned long long)r, (unsigned long long)e.rets[0]) + " [" + op->text.substr(0, 400) + "]");
  for (size_t i = 0; i < out.size(); i++) {
    if (!e.touched) {
      if (memcmp(out[i].p, before[i].data(), before[i].size())) R->fail("refused-wrote:" + n, what + ": refused " + n + " wrote to " + op->out[i].name + " [" + op->text.substr(0, 300) + "]");
      continue;
    }
    bool ok = i < e.cmp.size() && e.cmp[i] == PROJ25519 ? eq_proj(out[i].p, e.outs[i]) : i < e.cmp.size() && e.cmp[i] == MODP25519 ? eq_mod(out[i].p, e.outs[i]) : (out[i].len == 0 || !memcmp(out[i].p, e.outs[i].data(), out[i].len));
    if (!ok)
      R->fail("wrong-result:" + n, what + ": " + n + " gave " + op->out[i].name + "=" + short_hex(out[i].p, out[i].len) + " instead of " + short_hex(e.outs[i].data(), e.outs[i].size()) + " [" + op->text.substr(0, 400) + "]");
  }
}
void run_op_line(const Line& l, const string& what) {
  Op o = make_op(l);
  Placed p;
  p.put(o, l.num("pl"), (unsigned)l.num("fill", 0xAA), l.num("ro", 1), l.get("at"));
  g_poison.on = l.has("poison");
  g_poison.seed = l.num("poison");
  p.run();
  g_poison.on = false;
  R->st->steps++;
  R->st->ops[o->name]++;
  R->order(o->name);
  p.check(what);
  u64 h = p.ret & 0xffffffff;
  for (auto& b : p.out) h = hash_bytes(b.p, b.len, h);
  R->ev(fmt("%s -> %016llx", o->name.c_str(), (unsigned long long)h));
  p.release();
}

// ------------------------------------------------------------------ generators
static const size_t LENS[] = {0, 1, 2, 3, 7, 8, 9, 31, 32, 33, 47, 55, 56, 57, 63, 64, 65, 71, 72, 79, 80, 95, 103, 104, 110, 111, 112, 113, 119, 120, 126, 127, 128, 129,
  134, 135, 136, 137, 143, 144, 145, 152, 159, 160, 167, 168, 169, 175, 176, 183, 191, 192, 193, 223, 239, 240, 241, 247, 254, 255, 256, 257, 271, 272, 273, 335, 336, 337, 367, 368, 383, 384, 385, 511, 512, 513, 639, 640, 767, 768, 895, 896, 1023, 1024, 1025};
static size_t gen_len(Rng& r, bool big) {
  u64 k = r.below(100);
  if (k < 55) return LENS[r.below(sizeof LENS / sizeof *LENS)];
  if (k < 85) return r.below(300);
  if (k < 96 || !big) return r.below(2500);
  if (k < 99) return r.below(70000);
  return 65536 * r.range(1, 12) + r.below(300);
}
// runs of equal bits and bytes: the operands on which carries travel far
static string gen_runs(Rng& r, size_t n) {
  Bytes b(n);
  u64 k = r.below(4);
  if (k == 0) for (auto& x : b) x = (r.below(3) ? 0xff : 0) ^ (r.below(9) == 0 ? (uint8_t)r.next() : 0);
  else if (k == 1) for (auto& x : b) x = (r.below(3) ? 0 : 0xff) ^ (r.below(9) == 0 ? (uint8_t)r.next() : 0);
  else if (k == 2) {  // words
    for (size_t i = 0; i < n; i += 8) { u64 w = r.below(3) == 0 ? r.next() : r.below(2) ? ~0ull << r.below(64) : ~0ull >> r.below(64); memcpy(&b[i], &w, std::min<size_t>(8, n - i)); }
  } else {  // one run of bits
    size_t from = r.below(n * 8), len = r.range(1, n * 8);
    uint8_t inv = r.chance(50) ? 0xff : 0;
    for (size_t i = from; i < n * 8 && i < from + len; i++) b[i / 8] |= (uint8_t)(1 << (i % 8));
    for (auto& x : b) x ^= inv;
  }
  return "h:" + hex(b);
}
string gen_data(Rng& r, size_t n) {
  u64 k = r.below(20);
  if (k < 5 && k > 2 && n >= 8 && n <= 128) return gen_runs(r, n);
  if (k == 0) return fmt("z:%zu", n);
  if (k == 1) return fmt("f:%zu", n);
  if (k == 2) return fmt("i:%zu", n);
  return fmt("r:%llx:%zu", (unsigned long long)r.below(1 << 30), n);
}
string gen_msg(Rng& r, bool big) { return gen_data(r, gen_len(r, big)); }
string gen_ctx(Rng& r) {
  static const size_t C[] = {0, 0, 1, 2, 8, 31, 32, 64, 65, 127, 128, 200, 254, 255};
  return gen_data(r, r.chance(70) ? C[r.below(14)] : r.below(256));
}
string tweak1(Rng& r, size_t n) {
  return fmt("%llu.%llx", (unsigned long long)r.below(n), 1ull << r.below(8));
}
Pool make_pool(Rng& r, int nk, bool big) {
  Pool p;
  for (int i = 0; i < nk; i++) {
    // a few keys shared by all runs keep the models' memory effective
    u64 s = r.chance(60) ? r.below(12) : r.below(1 << 28);
    p.k32.push_back(r.chance(9) ? gen_runs(r, 32) : r.chance(5) ? aimed(r, aimed_k5, 32) : r.chance(6) ? gen_data(r, 32) : fmt("r:%llx:32", (unsigned long long)s));
    p.k57.push_back(r.chance(9) ? gen_runs(r, 57) : r.chance(5) ? aimed(r, aimed_k4, 57) : r.chance(6) ? gen_data(r, 57) : fmt("r:%llx:57", (unsigned long long)s));
    p.k56.push_back(r.chance(9) ? gen_runs(r, 56) : r.chance(6) ? gen_data(r, 56) : fmt("r:%llx:56", (unsigned long long)s));
  }
  for (int i = 0; i < nk + 2; i++) { p.msg.push_back(gen_msg(r, big)); p.ctx.push_back(gen_ctx(r)); }
  // related inputs: same length and beginning, a difference later
  for (int i = 0; i < nk; i++) {
    string m = r.pick(p.msg);
    size_t n = spec_bytes(m).size();
    if (n) p.msg.push_back(m + "~" + tweak1(r, n));
    string c = r.pick(p.ctx);
    n = spec_bytes(c).size();
    if (n) p.ctx.push_back(c + "~" + tweak1(r, n));
    string k = r.pick(p.k32);
    p.k32.push_back(k + "~" + tweak1(r, 32));
    p.k57.push_back(r.pick(p.k57) + "~" + tweak1(r, 57));
    p.k56.push_back(r.pick(p.k56) + "~" + tweak1(r, 56));
  }
  return p;
}
static string pick(Rng& r, const std::vector<string>& v) { return v[r.below(v.size())]; }
static string fp_operand(Rng& r, int f, int lanes) {
  size_t B = f ? 56 : 32;
  string h = "h:";
  for (int i = 0; i < lanes; i++) {
    Bytes b;
    u64 k = r.below(15);
    if (k < 5) b = rnd_bytes(r.next(), B);
    else if (k == 14) {  // around a power of two, or around the greatest value less one
      size_t bit = (size_t)(f ? r.pickn({224, 224, 223, 447, 256, 28, 420}) : r.pickn({255, 254, 128, 192, 26, 51, 230}));
      u64 w[7] = {0}, d = r.below(40);
      if (r.chance(50)) for (size_t j = bit / 64; j < B / 8; j++) w[j] = ~0ull << (j == bit / 64 ? bit % 64 : 0);
      else w[bit / 64] = 1ull << (bit % 64);
      bool neg = r.chance(50);
      for (size_t j = 0; j < B / 8; j++) { u64 was = w[j]; w[j] = neg ? was - d : was + d; d = neg ? w[j] > was : w[j] < was; }
      b.assign((uint8_t*)w, (uint8_t*)w + B);
    }
    else if (k >= 12) {  // words at the ends of their range
      b.assign(B, 0);
      bool half = r.chance(30);  // also 32-bit halves
      for (size_t j = 0; j < B; j += 8) {
        u64 w = r.pickn({0, 1, ~0ull, ~0ull, ~0ull - 1, 1ull << 63, 0xffffffffull, 0xffffffff00000000ull, 1ull << 32, 38, ~0ull - 37, ~0ull - 18});
        if (r.below(6) == 0) w = r.next();
        if (half) w = (w & 0xffffffffull) | (r.below(2) ? ~0ull << 32 : 0);
        memcpy(&b[j], &w, 8);
      }
    }
    else if (k == 5) b.assign(B, 0);
    else if (k == 6) { b.assign(B, 0); b[0] = (uint8_t)r.below(40); }
    else if (k == 7) b.assign(B, 0xff);
    else if (k == 8) {  // around p
      b.assign(B, 0xff);
      if (f) { b[28] = 0xfe; b[0] = (uint8_t)(0xf0 + r.below(16)); } else { b[31] = 0x7f; b[0] = (uint8_t)(0xe0 + r.below(32)); }
    } else if (k == 9) { b.assign(B, 0xff); b[0] = (uint8_t)r.next(); }
    else { b.assign(B, 0); for (size_t j = 0; j < B; j++) b[j] = (r.below(3) ? 0xff : 0) ^ (r.below(9) == 0 ? (uint8_t)r.next() : 0); }
    h += hex(b);
  }
  return h;
}
// inputs at which the map to the curve has a case of its own, or nearly
static string gen_map_edge(Rng& r) {
  ref::F1 one = ref::F1::num(1), two = one + one, v;
  u64 k = r.below(4), j = 486662;
  if (k == 0) v = ref::F1::zero();                                              // u = 0
  else if (k == 1) v = ref::F1::num(j - 1) * two.inv();                         // x = -1, were it a square
  else if (k == 2) v = (ref::F1::num(j) * ref::F1::num(j - 1).inv() - one) * two.inv();
  else v = two.inv().neg();                                                     // 1 + 2u^2 = 0
  ref::F1 u = ref::H2C::sqrt(v);
  if (r.chance(50)) u = u.neg();
  return "h:" + hex(u.bytes());
}
string gen_operand(Rng& r, int f) { return fp_operand(r, f, 1); }
// Operands of one lane chosen so that the result of the operation (and with it the last carries of its reduction) has runs of zeros or ones.
template <class F> static F fp_target(Rng& r) {
  const int B = sizeof(F), bits = B > 40 ? 448 : 256;
  for (;;) {
    Bytes t = rnd_bytes(r.next(), B);
    if (r.chance(15)) t.assign(B, r.chance(50) ? 0 : 0xff);
    int runs = 1 + (int)r.below(2);
    while (runs--) {
      int s = (int)(bits > 256 ? r.pickn({0, 0, 0, 224, 224, 64, 192, 256, 28, 252, 280, 420}) : r.pickn({0, 0, 0, 0, 64, 128, 26, 51, 230, 192}));
      int e = r.chance(40) ? (int)(s + r.range(30, 260)) : r.chance(50) ? bits : s + 64 * (int)r.range(1, 4);
      int one = (int)r.below(2);
      for (int i = s; i < e && i < bits; i++) { t[i / 8] &= (uint8_t)~(1 << (i % 8)); if (one) t[i / 8] |= (uint8_t)(1 << (i % 8)); }
      if (r.chance(70)) {  // near, not at, the end of the range
        u64 d = r.chance(60) ? r.below(40) : r.below(3000), w;
        memcpy(&w, &t[s / 8 & ~7], 8);
        w = one ? w - d * (1ull << (s % 64)) : w + d * (1ull << (s % 64));
        memcpy(&t[s / 8 & ~7], &w, 8);
      }
    }
    F x = F::from(t.data());
    if (!x.is_zero()) return x;
  }
}
// another representative of x below 2^256 or 2^448, if it has one
template <class F> static Bytes fp_repr(Rng& r, const F& x) {
  Bytes b = x.bytes();
  if (r.chance(60)) return b;
  const int n = sizeof(F) / 8;
  u64 w[8], c[8];
  memcpy(w, b.data(), b.size());
  unsigned long long carry = 0;
  const u64* p = sizeof(F) > 40 ? ref::P448::p() : ref::P25519::p();
  for (int i = 0; i < n; i++) { unsigned __int128 t = (unsigned __int128)w[i] + p[i] + carry; c[i] = (u64)t; carry = (unsigned long long)(t >> 64); }
  if (!carry) memcpy(b.data(), c, b.size());
  return b;
}
// b odd: a = t * b^-1 mod 2^(8B), so that the lower half of the product is t
template <class F> static Bytes fp_lowhalf(const F& t, Bytes& b) {
  const int n = sizeof(F) / 8;
  b[0] |= 1;
  u64 v[8], x[8] = {1}, y[16], z[16], a[8];
  memcpy(v, b.data(), b.size());
  for (int it = 0; it < 10; it++) {  // x = x * (2 - v * x)
    ref::lmul<sizeof(F) / 8>(y, v, x);
    u64 two[8] = {2}, d[8];
    ref::lsub<sizeof(F) / 8>(d, two, y);
    ref::lmul<sizeof(F) / 8>(z, x, d);
    memcpy(x, z, sizeof(u64) * n);
  }
  ref::lmul<sizeof(F) / 8>(y, t.v, x);
  memcpy(a, y, sizeof(u64) * n);
  Bytes o(b.size());
  memcpy(o.data(), a, o.size());
  return o;
}
static ref::F1 fp_root(Rng& r, ref::F1 t) {
  while (!ref::H2C::is_square(t)) t = fp_target<ref::F1>(r);
  return ref::H2C::sqrt(t);
}
static ref::F4 fp_root(Rng& r, ref::F4 t) {
  uint64_t e[7], one[7] = {1};
  ref::ladd<7>(e, ref::P448::p(), one);  // p + 1 does not overflow
  ref::lshr<7>(e, 2);
  for (;;) {
    ref::F4 x = t.pow(e, 7);
    if (x * x == t) return x;
    t = fp_target<ref::F4>(r);
  }
}
template <class F> static void fp_related(Rng& r, const string& o, Bytes& a, Bytes& b) {
  F t = fp_target<F>(r), y = F::from(b.data());
  if (o == "sub" || (o != "add" && r.chance(8))) { b = fp_repr(r, F::from(a.data()) - t); return; }
  if (o == "add" || ((o == "addsub" || o == "nfast" || o == "lar" || o == "poly") && r.chance(50))) {
    b = fp_repr(r, r.chance(50) ? t - F::from(a.data()) : F::from(a.data()) - t);
    return;
  }
  if (o == "addsub" || o == "nfast") { b = fp_repr(r, F::from(a.data()) - t); return; }
  if (o == "sqr" || o == "isqr" || o == "sqr2" || o == "srt") {
    if (o == "srt") { a = fp_repr(r, t); return; }
    a = fp_repr(r, fp_root(r, t));
    if (o == "sqr2") b = fp_repr(r, fp_root(r, fp_target<F>(r)));
    return;
  }
  if (o == "inv") { a = fp_repr(r, t.inv()); return; }
  if (o == "neg" || o == "ngz") { a = fp_repr(r, t.neg()); return; }
  if (o == "a24") { a = fp_repr(r, t * F::num(sizeof(F) > 40 ? 39082 : 121666).inv()); return; }
  if (o == "cmp") { b = fp_repr(r, F::from(a.data())); return; }
  if (r.chance(40)) { a = fp_lowhalf(t, b); return; }
  if (!y.is_zero()) a = fp_repr(r, t * y.inv());
}
string gen_target(Rng& r, int f) { return "h:" + hex(f ? fp_target<ref::F4>(r).bytes() : fp_target<ref::F1>(r).bytes()); }
// A u whose first ladder steps (bit set: (u+1)^2, (u-1)^2, 4u, 4u^2, (u^2-1)^2) give such values.
template <class F> static Bytes fp_ladder_value(Rng& r) {
  F t = fp_target<F>(r), one = F::num(1), u = t;
  switch (r.below(7)) {
    case 0: u = fp_root(r, t) - one; break;
    case 1: u = fp_root(r, t) + one; break;
    case 2: u = t * F::num(4).inv(); break;
    case 3: u = fp_root(r, t) * F::num(2).inv(); break;
    case 4: u = fp_root(r, fp_root(r, t) + one); break;
    case 5: u = fp_root(r, t).neg() - one; break;
    default: u = t - one; break;
  }
  return u.bytes();
}
string gen_ladder_value(Rng& r, int f) { return "h:" + hex(f ? fp_ladder_value<ref::F4>(r) : fp_ladder_value<ref::F1>(r)); }
void gen_related(Rng& r, int f, const string& o, string& a, string& b) {
  Bytes x = spec_bytes(a), y = spec_bytes(b), A, B;
  size_t n = f ? 56 : 32;
  for (size_t i = 0; i + n <= x.size(); i += n) {
    Bytes p(x.begin() + i, x.begin() + i + n), q(y.begin() + i, y.begin() + i + n);
    if (r.chance(75)) { if (f) fp_related<ref::F4>(r, o, p, q); else fp_related<ref::F1>(r, o, p, q); }
    A.insert(A.end(), p.begin(), p.end());
    B.insert(B.end(), q.begin(), q.end());
  }
  a = "h:" + hex(A);
  b = "h:" + hex(B);
}
Line gen_op(Rng& r, const Pool& p, unsigned kinds, bool refusals) {
  std::vector<unsigned> ks;
  for (unsigned b : {1u, 2u, 4u, 8u, 16u, 32u}) if (kinds & b) ks.push_back(b);
  unsigned k = ks[r.below(ks.size())];
  Line l("op");
  if (k == G_ED25519 || k == G_ED448) {
    bool e4 = k == G_ED448;
    const auto& keys = e4 ? p.k57 : p.k32;
    string pre = e4 ? "e448." : "e25519.";
    int v = e4 ? 1 + (int)r.below(2) : (int)r.below(3);
    if (r.chance(6)) {  // scalars of a rare form
      u64 a = r.below(3);
      string m = e4 ? aimed(r, aimed_n4, 16) : aimed(r, aimed_n5, 16), h = e4 ? aimed(r, aimed_h4, 16) : aimed(r, aimed_h5, 16), k = e4 ? aimed(r, aimed_k4, 57) : aimed(r, aimed_k5, 32);
      if (a == 0) { l.set("op", pre + "keygen").set("v", v).set("sk", k); return l; }
      l.set("op", pre + (a == 1 ? "sign" : "verify")).set("v", e4 ? 1 : 0).set("sk", e4 ? "r:1:57" : "r:1:32").set("m", a == 1 ? m : h);
      if (e4) l.set("c", "z:0");
      if (a == 2) l.set("rm", "z:0");
      return l;
    }
    u64 c = r.below(10);
    if (c < 2) { l.set("op", pre + "keygen").set("v", v).set("sk", pick(r, keys)); return l; }
    bool ver = c >= 6;
    l.set("op", pre + (ver ? "verify" : "sign")).set("v", v).set("sk", pick(r, keys)).set("m", pick(r, p.msg));
    if (e4 || v) l.set("c", pick(r, p.ctx));
    if (refusals && (e4 || v) && r.chance(20)) {
      if (r.chance(50)) { l.set("c", gen_data(r, r.chance(50) ? 256 : 256 + r.below(700))); }
      else l.set("c", "r:5:255").set("clen", r.pickn({256, 257, 511, 512, 65536, 65791, 1ull << 32, (1ull << 32) + 1, (1ull << 32) + 255, 1ull << 63, ~0ull, ~0ull - 255}));
      return l;
    }
    if (ver && r.chance(refusals ? 60 : 35)) {
      size_t K = e4 ? 57 : 32;
      if (r.chance(15)) {
        // small values with the order added are the first ones to be refused
        l.set("craft", r.chance(35) ? fmt("h:%02x", (unsigned)(r.chance(60) ? 0 : r.range(1, 2))) : r.chance(70) ? gen_runs(r, K) : gen_data(r, K));
        if (r.chance(40)) { l.set("sadd", r.chance(70) ? 1 : r.range(2, 3)); return l; }
        if (r.chance(30)) l.set("sigx", tweak1(r, 2 * K));
        return l;
      }
      switch (r.below(10)) {
        case 9: l.set("rx", gen_forger(r, K)); break;
        case 0: l.set("sigx", tweak1(r, 2 * K)); break;
        case 1: l.set("mx", tweak1(r, std::max<size_t>(1, spec_bytes(l.get("m")).size()))); break;
        case 2: l.set("pkx", tweak1(r, K)); break;
        case 3: l.set("m2", pick(r, p.msg)); break;
        case 4: if (l.has("c")) l.set("c2", pick(r, p.ctx)); else l.set("sk2", pick(r, keys)); break;
        case 5: l.set("sadd", r.range(1, 3)); break;
        case 6: l.set("pkl", r.chance(50) ? gen_data(r, K) : r.chance(50) ? fp_operand(r, e4, 1) + (e4 ? (r.chance(50) ? "00" : "80") : "") : gen_target(r, e4) + (e4 ? (r.chance(50) ? "00" : "80") : "")); break;
        case 7: l.set("sv", e4 ? 1 + r.below(2) : r.below(3)); if (!l.has("c")) l.set("c", "z:0"); break;
        case 8: l.set("sigl", gen_data(r, 2 * K)); break;
      }
    }
    return l;
  }
  if (k == G_X) {
    int e = (int)r.below(3);
    const auto& keys = e == 2 ? p.k56 : p.k32;
    bool gen = r.chance(30);
    l.set("op", gen ? "x.keygen" : "x.shared").set("e", e).set("k", pick(r, keys));
    if (!gen) {
      u64 c = r.below(10);
      size_t K = e == 2 ? 56 : 32;
      if (c < 5) l.set("of", pick(r, keys));
      else if (c < 7) l.set("u", pick(r, keys));
      else if (c < 9) l.set("u", gen_data(r, K));
      else if (r.chance(70)) l.set("u", r.chance(50) ? fp_operand(r, e == 2, 1) : gen_ladder_value(r, e == 2));
      else {  // chosen so that the secret comes out as wanted
        Bytes k = spec_bytes(l.get("k")), t = spec_bytes(gen_target(r, e == 2));
        k.resize(K);
        l.set("u", "h:" + hex(e == 2 ? ref::x448_aim(k, t) : ref::x25519_aim(k, t)));
      }
    }
    return l;
  }
  if (k == G_H2C) {
    u64 c = r.below(8);
    if (r.chance(20)) {
      if (r.chance(60)) {
        u64 e = r.below(2);
        string u = "h:";
        for (u64 i = 0; i <= e; i++) u += hex(spec_bytes(r.chance(10) ? gen_map_edge(r) : fp_operand(r, 0, 1)));
        l.set("op", "m2c").set("e", e).set("u", u);
      } else {
        l.set("op", "fadd");
        if (r.chance(85)) l.set("qm", pick(r, p.msg));
        if (r.chance(85)) l.set("pm", l.has("qm") && r.chance(30) ? l.get("qm") : pick(r, p.msg));
        for (const char* z : {"qz", "pz"}) if (r.chance(70)) l.set(z, fp_operand(r, 0, 1));
        for (const char* h : {"qh", "ph"}) if (r.chance(40)) l.set(h, r.below(16));
        for (const char* g : {"qn", "pn"}) if (r.chance(25)) l.set(g, 1);
        l.set("al", r.below(3));
      }
      return l;
    }
    if (c < 4) { l.set("op", "h2c").set("e", r.below(2)).set("m", pick(r, p.msg)); return l; }
    if (c < 6) { l.set("op", "h2f").set("e", r.below(2)).set("m", pick(r, p.msg)); if (l.num("e") == 0) l.set("pre", r.below(3)); return l; }
    l.set("op", c == 6 ? "oncurve" : "areeq").set("pm", pick(r, p.msg));
    if (r.chance(25)) l.set("px", tweak1(r, 64));
    for (const char* w : {"p", "q"}) {
      if (*w == 'q' && c == 6) break;
      string k(w);
      if (r.chance(35)) l.set(k + "n", r.range(1, 7));
      if (r.chance(25)) l.set(k + "o", r.range(1, 3)).set(k + "v", r.chance(50) ? r.pick({"z:32", "i:32"}) : fp_operand(r, 0, 1));
      if (r.chance(25)) l.set(k + "h", r.range(1, 3));
    }
    if (c == 7) { l.set("qm", r.chance(60) ? l.get("pm") : pick(r, p.msg)); if (r.chance(30)) l.set("qx", tweak1(r, 64)); }
    return l;
  }
  if (k == G_HASH) {
    u64 c = r.below(10);
    string m = pick(r, p.msg);
    string cuts;
    size_t n = spec_bytes(m).size();
    if (r.chance(60)) {
      size_t parts = r.range(1, 4);
      for (size_t i = 0; i < parts; i++) cuts += (i ? "," : "") + std::to_string(r.below(3) ? r.below(n / 2 + 2) : r.pickn({0, 1, 127, 128, 129, 135, 136, 137, 16}));
    }
    if (c < 4) {
      l.set("op", "sha2").set("b", r.chance(50) ? 512 : 384).set("m", m);
      if (r.chance(10)) l.set("nb", r.range(1, 7)).set("xb", r.below(256));
    } else if (c < 6) l.set("op", "sha3").set("b", r.chance(70) ? 256 : r.pickn({224, 384, 512})).set("m", m);
    else if (c < 9) l.set("op", "shake").set("b", r.chance(50) ? 128 : 256).set("m", m).set("d", r.chance(50) ? r.pickn({0, 1, 32, 64, 114, 135, 136, 137, 167, 168, 169, 272, 336, 400}) : r.below(600));
    else if (r.chance(40)) { l.set("op", "sha2c").set("b", r.chance(50) ? 512 : 384).set("m", m); return l; }
    else if (r.chance(30)) { l.set("op", "sha2w").set("m", fmt("r:%llx:32", (unsigned long long)r.below(1000))).set("m2", fmt("r:%llx:32", (unsigned long long)r.below(1000))).set("k", r.below(2)); return l; }
    else { l.set("op", "sha2w").set("m", m).set("m2", fmt("r:%llx:%zu", (unsigned long long)r.below(1000), n)); return l; }
    if (!cuts.empty()) l.set("cuts", cuts);
    return l;
  }
  int f = r.chance(50) ? 448 : 25519;
  string e = r.pick({"1f", "1r", "2r", "4r"});
  int lanes = e[0] - '0';
  l.set("op", "fp").set("f", f).set("e", e).set("o", r.pick({"add", "sub", "mul", "sqr", "inv", "neg", "ngz", "sgn", "cmp", "cmv", "copy", "poly", "poly", "id", "zero", "prime", "addsub", "mul2", "sqr2", "a24", "imul", "isqr", "nfast", "lar", "inter", "srt"}));
  if (r.chance(45)) l.set("lo", r.range(1, 3));
  if (r.chance(35)) {
    l.set("op", "fps");
    // an inversion costs as much as some hundred products
    l.set("s", r.below(1ull << 40)).set("n", r.range(2, l.get("o") == "inv" || l.get("o") == "srt" ? 8 : 32));
    return l;
  }
  l.set("a", fp_operand(r, f == 448, lanes));
  l.set("b", r.chance(25) ? l.get("a") : fp_operand(r, f == 448, lanes));
  if (r.chance(35)) {
    string a = l.get("a"), b = l.get("b");
    gen_related(r, f == 448, l.get("o"), a, b);
    l.set("a", a).set("b", b);
  }
  if (l.get("o") == "cmv") l.set("k", r.below(2));
  return l;
}
