// Independent reference model: the oracle of every simulated run.
// Written from RFC 7748, RFC 8032, FIPS 180-4, FIPS 202 and the Elligator 2
// formulas; shares no code with the library under test.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>

namespace ref {
typedef std::vector<uint8_t> Bytes;
typedef unsigned __int128 u128;

// ---------------------------------------------------------------- SHA-2
struct Sha2 {
  static void compress(uint64_t h[8], const uint8_t* p);
  static Bytes hash(const Bytes& m, int bits, int extra_bits_n = 0, unsigned extra = 0);
};
inline uint64_t ror(uint64_t x, int n) { return (x >> n) | (x << (64 - n)); }
inline const uint64_t* sha512_k() {
  // first 64 bits of the fractional parts of the cube roots of the first 80 primes
  static const uint64_t K[80] = {
#include "sha512_k.inc"
  };
  return K;
}
inline void Sha2::compress(uint64_t h[8], const uint8_t* p) {
  const uint64_t* K = sha512_k();
  uint64_t w[80];
  for (int i = 0; i < 16; i++) {
    w[i] = 0;
    for (int j = 0; j < 8; j++) w[i] = (w[i] << 8) | p[8 * i + j];
  }
  for (int i = 16; i < 80; i++) {
    uint64_t s0 = ror(w[i - 15], 1) ^ ror(w[i - 15], 8) ^ (w[i - 15] >> 7);
    uint64_t s1 = ror(w[i - 2], 19) ^ ror(w[i - 2], 61) ^ (w[i - 2] >> 6);
    w[i] = w[i - 16] + s0 + w[i - 7] + s1;
  }
  uint64_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4], f = h[5], g = h[6], hh = h[7];
  for (int i = 0; i < 80; i++) {
    uint64_t S1 = ror(e, 14) ^ ror(e, 18) ^ ror(e, 41);
    uint64_t t1 = hh + S1 + ((e & f) ^ (~e & g)) + K[i] + w[i];
    uint64_t S0 = ror(a, 28) ^ ror(a, 34) ^ ror(a, 39);
    uint64_t t2 = S0 + ((a & b) ^ (a & c) ^ (b & c));
    hh = g; g = f; f = e; e = d + t1; d = c; c = b; b = a; a = t1 + t2;
  }
  h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e; h[5] += f; h[6] += g; h[7] += hh;
}
inline Bytes Sha2::hash(const Bytes& m, int bits, int n, unsigned extra) {
  static const uint64_t I512[8] = {0x6a09e667f3bcc908ull, 0xbb67ae8584caa73bull, 0x3c6ef372fe94f82bull,
      0xa54ff53a5f1d36f1ull, 0x510e527fade682d1ull, 0x9b05688c2b3e6c1full, 0x1f83d9abfb41bd6bull, 0x5be0cd19137e2179ull};
  static const uint64_t I384[8] = {0xcbbb9d5dc1059ed8ull, 0x629a292a367cd507ull, 0x9159015a3070dd17ull,
      0x152fecd8f70e5939ull, 0x67332667ffc00b31ull, 0x8eb44a8768581511ull, 0xdb0c2e0d64f98fa7ull, 0x47b5481dbefa4fa4ull};
  uint64_t h[8];
  memcpy(h, bits == 512 ? I512 : I384, sizeof h);
  Bytes p = m;
  uint64_t bl = (uint64_t)m.size() * 8 + n;
  unsigned top = n ? (extra & (0xFF00u >> n) & 0xFF) : 0;
  p.push_back((uint8_t)(top | (0x80u >> n)));
  while (p.size() % 128 != 112) p.push_back(0);
  for (int i = 0; i < 8; i++) p.push_back(0);
  for (int i = 7; i >= 0; i--) p.push_back((uint8_t)(bl >> (8 * i)));
  for (size_t i = 0; i < p.size(); i += 128) compress(h, &p[i]);
  Bytes out;
  for (int i = 0; i < bits / 64; i++)
    for (int j = 7; j >= 0; j--) out.push_back((uint8_t)(h[i] >> (8 * j)));
  return out;
}
inline Bytes sha512(const Bytes& m) { return Sha2::hash(m, 512); }

// ---------------------------------------------------------------- Keccak
__attribute__((optimize("O3"))) inline void keccakf(uint64_t st[25]) {
  // straightforward theta/rho/pi/chi/iota with generated constants
  static uint64_t RC[24];
  static int ROT[25];
  static bool init = false;
  if (!init) {
    uint8_t lfsr = 1;
    for (int r = 0; r < 24; r++) {
      uint64_t c = 0;
      for (int j = 0; j < 7; j++) {
        if (lfsr & 1) c |= 1ull << ((1 << j) - 1);
        lfsr = (uint8_t)((lfsr << 1) ^ ((lfsr >> 7) * 0x71));
      }
      RC[r] = c;
    }
    int x = 1, y = 0;
    ROT[0] = 0;
    for (int t = 0; t < 24; t++) {
      ROT[x + 5 * y] = ((t + 1) * (t + 2) / 2) % 64;
      int nx = y, ny = (2 * x + 3 * y) % 5;
      x = nx; y = ny;
    }
    init = true;
  }
  uint64_t a[25];
  memcpy(a, st, sizeof a);
  for (int r = 0; r < 24; r++) {
    uint64_t C[5], D[5], B[25];
#pragma GCC unroll 5
    for (int x = 0; x < 5; x++) C[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
#pragma GCC unroll 5
    for (int x = 0; x < 5; x++) D[x] = C[(x + 4) % 5] ^ ((C[(x + 1) % 5] << 1) | (C[(x + 1) % 5] >> 63));
#pragma GCC unroll 5
    for (int y = 0; y < 5; y++)
#pragma GCC unroll 5
      for (int x = 0; x < 5; x++) {
        uint64_t v = a[x + 5 * y] ^ D[x];
        int k = ROT[x + 5 * y];
        B[y + 5 * ((2 * x + 3 * y) % 5)] = (v << k) | (v >> ((64 - k) & 63));
      }
#pragma GCC unroll 5
    for (int y = 0; y < 5; y++)
#pragma GCC unroll 5
      for (int x = 0; x < 5; x++) a[x + 5 * y] = B[x + 5 * y] ^ (~B[(x + 1) % 5 + 5 * y] & B[(x + 2) % 5 + 5 * y]);
    a[0] ^= RC[r];
  }
  memcpy(st, a, sizeof a);
}
inline Bytes keccak(const Bytes& m, size_t rate, uint8_t dom, size_t outlen) {
  uint64_t st[25] = {0};
  Bytes p = m;
  p.push_back(dom);
  while (p.size() % rate) p.push_back(0);
  p[p.size() - 1] |= 0x80;
  for (size_t o = 0; o < p.size(); o += rate) {
    for (size_t i = 0; i < rate; i++) st[i / 8] ^= (uint64_t)p[o + i] << (8 * (i % 8));
    keccakf(st);
  }
  Bytes out;
  while (true) {
    for (size_t i = 0; i < rate && out.size() < outlen; i++) out.push_back((uint8_t)(st[i / 8] >> (8 * (i % 8))));
    if (out.size() >= outlen) return out;
    keccakf(st);
  }
}
inline Bytes shake256(const Bytes& m, size_t n) { return keccak(m, 136, 0x1F, n); }
inline Bytes shake128(const Bytes& m, size_t n) { return keccak(m, 168, 0x1F, n); }

// ---------------------------------------------------------------- fields
template <int N> struct Limbs { uint64_t v[N]; };
template <int N> inline int lcmp(const uint64_t* a, const uint64_t* b) {
  for (int i = N - 1; i >= 0; i--) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
  return 0;
}
template <int N> inline uint64_t ladd(uint64_t* r, const uint64_t* a, const uint64_t* b) {
  u128 c = 0;
  for (int i = 0; i < N; i++) { c += (u128)a[i] + b[i]; r[i] = (uint64_t)c; c >>= 64; }
  return (uint64_t)c;
}
template <int N> inline uint64_t lsub(uint64_t* r, const uint64_t* a, const uint64_t* b) {
  uint64_t br = 0;
  for (int i = 0; i < N; i++) {
    u128 d = (u128)a[i] - b[i] - br;
    r[i] = (uint64_t)d;
    br = (uint64_t)(d >> 64) & 1;
  }
  return br;
}
template <int N> inline void lmul(uint64_t* r, const uint64_t* a, const uint64_t* b) {
  for (int i = 0; i < 2 * N; i++) r[i] = 0;
  for (int i = 0; i < N; i++) {
    uint64_t c = 0;
    for (int j = 0; j < N; j++) {
      u128 t = (u128)a[i] * b[j] + r[i + j] + c;
      r[i + j] = (uint64_t)t;
      c = (uint64_t)(t >> 64);
    }
    r[i + N] = c;
  }
}
// Fields keep fully reduced representatives.
struct P25519 {
  static const int N = 4, BYTES = 32, BITS = 255;
  static const uint64_t* p() { static const uint64_t P[4] = {~0ull - 18, ~0ull, ~0ull, 0x7FFFFFFFFFFFFFFFull}; return P; }
  static void red(uint64_t* r, const uint64_t* t) {  // t: 8 limbs
    uint64_t c = 0, x[4];
    for (int i = 0; i < 4; i++) { u128 s = (u128)t[4 + i] * 38 + t[i] + c; x[i] = (uint64_t)s; c = (uint64_t)(s >> 64); }
    u128 s = (u128)c * 38;
    for (int i = 0; i < 4; i++) { s += x[i]; x[i] = (uint64_t)s; s >>= 64; }
    if ((uint64_t)s) { s = (u128)x[0] + 38; x[0] = (uint64_t)s; for (int i = 1; i < 4; i++) { s = (s >> 64) + x[i]; x[i] = (uint64_t)s; } }
    while (lcmp<4>(x, p()) >= 0) lsub<4>(x, x, p());
    memcpy(r, x, 32);
  }
};
struct P448 {
  static const int N = 7, BYTES = 56, BITS = 448;
  static const uint64_t* p() {
    static const uint64_t P[7] = {~0ull, ~0ull, ~0ull, 0xFFFFFFFEFFFFFFFFull, ~0ull, ~0ull, ~0ull};
    return P;
  }
  static void red(uint64_t* r, const uint64_t* t) {  // t: 14 limbs; 2^448 = 2^224 + 1
    uint64_t a[8] = {0}, lo[15], hi[15];
    memset(lo, 0, sizeof lo);
    memcpy(lo, t, 14 * 8);
    (void)a;
    for (int it = 0; it < 4; it++) {
      bool any = false;
      memset(hi, 0, sizeof hi);
      for (int i = 7; i < 15; i++) { hi[i - 7] = lo[i]; any |= lo[i] != 0; lo[i] = 0; }
      if (!any) break;
      ladd<15>(lo, lo, hi);
      uint64_t sh[15];
      memset(sh, 0, sizeof sh);  // hi << 224 = 3 limbs + 32 bits
      for (int i = 0; i < 15; i++) {
        int j = i + 3;
        if (j < 15) sh[j] |= hi[i] << 32;
        if (j + 1 < 15) sh[j + 1] |= hi[i] >> 32;
      }
      ladd<15>(lo, lo, sh);
    }
    while (lcmp<7>(lo, p()) >= 0) lsub<7>(lo, lo, p());
    memcpy(r, lo, 56);
  }
};
template <class P> struct Fe {
  uint64_t v[P::N];
  static Fe zero() { Fe r; memset(r.v, 0, sizeof r.v); return r; }
  static Fe num(uint64_t x) { Fe r = zero(); r.v[0] = x; return r; }
  static Fe from(const uint8_t* b) {  // BYTES little endian bytes, reduced
    uint64_t t[2 * P::N];
    memset(t, 0, sizeof t);
    for (int i = 0; i < P::BYTES; i++) t[i / 8] |= (uint64_t)b[i] << (8 * (i % 8));
    Fe r; P::red(r.v, t); return r;
  }
  static Fe wide(const uint8_t* b, int n) {
    uint64_t t[2 * P::N];
    memset(t, 0, sizeof t);
    for (int i = 0; i < n; i++) t[i / 8] |= (uint64_t)b[i] << (8 * (i % 8));
    Fe r; P::red(r.v, t); return r;
  }
  Bytes bytes() const {
    Bytes o(P::BYTES);
    for (int i = 0; i < P::BYTES; i++) o[i] = (uint8_t)(v[i / 8] >> (8 * (i % 8)));
    return o;
  }
  bool operator==(const Fe& o) const { return memcmp(v, o.v, sizeof v) == 0; }
  bool is_zero() const { return *this == zero(); }
  bool odd() const { return v[0] & 1; }
  Fe operator+(const Fe& o) const {
    Fe r; uint64_t c = ladd<P::N>(r.v, v, o.v);
    if (c || lcmp<P::N>(r.v, P::p()) >= 0) lsub<P::N>(r.v, r.v, P::p());
    return r;
  }
  Fe operator-(const Fe& o) const {
    Fe r; if (lsub<P::N>(r.v, v, o.v)) ladd<P::N>(r.v, r.v, P::p());
    return r;
  }
  Fe operator*(const Fe& o) const { uint64_t t[2 * P::N]; lmul<P::N>(t, v, o.v); Fe r; P::red(r.v, t); return r; }
  Fe neg() const { return zero() - *this; }
  Fe pow(const uint64_t* e, int nl) const {
    Fe r = num(1);
    for (int i = 64 * nl - 1; i >= 0; i--) { r = r * r; if ((e[i / 64] >> (i % 64)) & 1) r = r * *this; }
    return r;
  }
  Fe inv() const { uint64_t e[P::N], two[P::N] = {2}; lsub<P::N>(e, P::p(), two); return pow(e, P::N); }
};
typedef Fe<P25519> F1;
typedef Fe<P448> F4;
template <int N> inline void lshr(uint64_t* a, int k) {
  for (int t = 0; t < k; t++)
    for (int i = 0; i < N; i++) a[i] = (a[i] >> 1) | (i + 1 < N ? a[i + 1] << 63 : 0);
}

// ---------------------------------------------------------------- scalars
// x (n bytes little endian) mod L (N limbs); bitwise, slow and simple.
template <int N> inline void smod(uint64_t* r, const uint8_t* x, int n, const uint64_t* L) {
  uint64_t a[N + 1];
  memset(a, 0, sizeof a);
  uint64_t LL[N + 1];
  memcpy(LL, L, 8 * N); LL[N] = 0;
  for (int i = 8 * n - 1; i >= 0; i--) {
    for (int k = N; k > 0; k--) a[k] = (a[k] << 1) | (a[k - 1] >> 63);
    a[0] = (a[0] << 1) | ((x[i / 8] >> (i % 8)) & 1);
    if (lcmp<N + 1>(a, LL) >= 0) lsub<N + 1>(a, a, LL);
  }
  memcpy(r, a, 8 * N);
}
inline const uint64_t* L25519() {
  static const uint64_t L[4] = {0x5812631a5cf5d3edull, 0x14def9dea2f79cd6ull, 0, 0x1000000000000000ull};
  return L;
}
inline const uint64_t* L448() {
  static const uint64_t L[7] = {0x2378c292ab5844f3ull, 0x216cc2728dc58f55ull, 0xc44edb49aed63690ull, 0xffffffff7cca23e9ull,
                                ~0ull, ~0ull, 0x3fffffffffffffffull};
  return L;
}
template <int N> inline Bytes limb_bytes(const uint64_t* a, int n) {
  Bytes o(n);
  for (int i = 0; i < n && i < 8 * N; i++) o[i] = (uint8_t)(a[i / 8] >> (8 * (i % 8)));
  return o;
}

// ---------------------------------------------------------------- edwards25519
struct E1 {
  F1 X, Y, Z, T;
  static F1 d() { static F1 D = F1::num(121665).neg() * F1::num(121666).inv(); return D; }
  static E1 zero() { return E1{F1::zero(), F1::num(1), F1::num(1), F1::zero()}; }
  E1 add(const E1& q) const {
    static F1 d2 = d() + d();
    F1 A = (Y - X) * (q.Y - q.X), B = (Y + X) * (q.Y + q.X), C = T * d2 * q.T, D = (Z + Z) * q.Z;
    F1 E = B - A, F = D - C, G = D + C, H = B + A;
    return E1{E * F, G * H, F * G, E * H};
  }
  Bytes enc() const {
    F1 zi = Z.inv(), x = X * zi, y = Y * zi;
    Bytes b = y.bytes();
    b[31] |= (uint8_t)(x.odd() << 7);
    return b;
  }
  static bool dec(E1& r, const uint8_t* b) {  // RFC 8032 5.1.3 (strict)
    uint8_t t[32];
    memcpy(t, b, 32);
    bool sx = t[31] >> 7;
    t[31] &= 0x7F;
    uint64_t raw[4] = {0};
    for (int i = 0; i < 32; i++) raw[i / 8] |= (uint64_t)t[i] << (8 * (i % 8));
    if (lcmp<4>(raw, P25519::p()) >= 0) return false;
    F1 y = F1::from(t), u = y * y - F1::num(1), v = d() * y * y + F1::num(1);
    uint64_t e[4], five[4] = {5};
    lsub<4>(e, P25519::p(), five);
    lshr<4>(e, 3);  // (p-5)/8
    F1 v3 = v * v * v, v7 = v3 * v3 * v, x = u * v3 * (u * v7).pow(e, 4), c = v * x * x;
    if (!(c == u)) {
      if (!(c == u.neg())) return false;
      uint64_t e4[4], one[4] = {1};
      lsub<4>(e4, P25519::p(), one);
      lshr<4>(e4, 2);
      x = x * F1::num(2).pow(e4, 4);
    }
    if (x.is_zero() && sx) return false;
    if (x.odd() != sx) x = x.neg();
    r = E1{x, y, F1::num(1), x * y};
    return true;
  }
  static E1 base() {
    static E1 B;
    static bool ok = false;
    if (!ok) { Bytes b = (F1::num(4) * F1::num(5).inv()).bytes(); ok = dec(B, b.data()); }
    return B;
  }
};
template <class E> inline E smul(const uint8_t* k, int n, const E& P) {
  E r = E::zero();
  bool started = false;
  for (int i = 8 * n - 1; i >= 0; i--) {
    if (started) r = r.add(r);
    if ((k[i / 8] >> (i % 8)) & 1) { r = r.add(P); started = true; }
  }
  return r;
}
template <class E> inline E bmul(const uint8_t* k, int n) {  // fixed base, table of 2^i * B
  static std::vector<E> T;
  if (T.empty()) { E p = E::base(); for (int i = 0; i < 460; i++) { T.push_back(p); p = p.add(p); } }
  E r = E::zero();
  for (int i = 0; i < 8 * n; i++) if ((k[i / 8] >> (i % 8)) & 1) r = r.add(T[i]);
  return r;
}
// ---------------------------------------------------------------- edwards448
struct E4 {
  F4 X, Y, Z;
  static F4 d() { static F4 D = F4::num(39081).neg(); return D; }
  static E4 zero() { return E4{F4::zero(), F4::num(1), F4::num(1)}; }
  E4 add(const E4& q) const {
    F4 A = Z * q.Z, B = A * A, C = X * q.X, D = Y * q.Y, E = d() * C * D, F = B - E, G = B + E;
    F4 H = (X + Y) * (q.X + q.Y);
    return E4{A * F * (H - C - D), A * G * (D - C), F * G};
  }
  Bytes enc() const {
    F4 zi = Z.inv(), x = X * zi, y = Y * zi;
    Bytes b = y.bytes();
    b.push_back((uint8_t)(x.odd() << 7));
    return b;
  }
  static bool dec(E4& r, const uint8_t* b) {  // RFC 8032 5.2.3
    if (b[56] & 0x7F) return false;
    bool sx = b[56] >> 7;
    uint64_t raw[7] = {0};
    for (int i = 0; i < 56; i++) raw[i / 8] |= (uint64_t)b[i] << (8 * (i % 8));
    if (lcmp<7>(raw, P448::p()) >= 0) return false;
    F4 y = F4::from(b), u = y * y - F4::num(1), v = d() * y * y - F4::num(1);
    uint64_t e[7], three[7] = {3};
    lsub<7>(e, P448::p(), three);
    lshr<7>(e, 2);
    F4 u3v = u * u * u * v, u5v3 = u3v * u * u * v * v, x = u3v * u5v3.pow(e, 7);
    if (!(v * x * x == u)) return false;
    if (x.is_zero() && sx) return false;
    if (x.odd() != sx) x = x.neg();
    r = E4{x, y, F4::num(1)};
    return true;
  }
  static E4 base() {
    static const uint64_t GX[7] = {
#include "e448_gx.inc"
    };
    static const uint64_t GY[7] = {
#include "e448_gy.inc"
    };
    E4 r;
    memcpy(r.X.v, GX, 56);
    memcpy(r.Y.v, GY, 56);
    r.Z = F4::num(1);
    return r;
  }
};

// ---------------------------------------------------------------- EdDSA
inline void app(Bytes& a, const Bytes& b) { a.insert(a.end(), b.begin(), b.end()); }
inline Bytes cat(const Bytes& a, const Bytes& b) { Bytes r = a; app(r, b); return r; }
inline Bytes sub(const Bytes& a, size_t o, size_t n) { return Bytes(a.begin() + o, a.begin() + o + n); }
// variant: 0 pure (25519 only), 1 context, 2 prehash
// A signer who misuses its own key: the signature satisfies the equation, but
// its commitment is not the encoding of the point: some bytes are different, or
// (neutral) it is another way of writing the neutral element.
struct Forger {
  int neutral = 0;  // 1 unreduced ordinate, 2 sign bit, 3 both
  std::vector<std::pair<size_t, uint8_t>> flips;
  bool reuse = false;  // the commitment of another message (nothing else is wrong: the signature is valid)
  Bytes other;
  void apply(Bytes& R) const {
    if (reuse) return;
    Bytes was = R;
    if (neutral & 1) {
      const bool e4 = R.size() == 57;
      uint64_t one[7] = {1}, y[7];
      if (e4) { ladd<7>(y, P448::p(), one); for (int i = 0; i < 56; i++) R[i] = (uint8_t)(y[i / 8] >> (8 * (i % 8))); }
      else { ladd<4>(y, P25519::p(), one); for (int i = 0; i < 32; i++) R[i] = (uint8_t)(y[i / 8] >> (8 * (i % 8))); }
    }
    if (neutral & 2) R.back() |= 128;
    if (!neutral) for (auto& t : flips) R[t.first % R.size()] ^= t.second;
    if (R == was) R[0] ^= 2;
  }
};
struct Ed25519 {
  static const int K = 32;
  static Bytes expand(const Bytes& sk) { Bytes h = sha512(sk); h[0] &= 248; h[31] &= 127; h[31] |= 64; return h; }
  static Bytes pub(const Bytes& sk) { Bytes h = expand(sk); return bmul<E1>(h.data(), 32).enc(); }
  static Bytes dom(int variant, const Bytes& ctx) {
    if (variant == 0) return Bytes();
    const char* s = "SigEd25519 no Ed25519 collisions";
    Bytes d(s, s + 32);
    d.push_back(variant == 2);
    d.push_back((uint8_t)ctx.size());
    app(d, ctx);
    return d;
  }
  static Bytes reduce(const Bytes& x) { uint64_t r[4]; smod<4>(r, x.data(), (int)x.size(), L25519()); return limb_bytes<4>(r, 32); }
  static Bytes muladd(const Bytes& k, const Bytes& a, const Bytes& r) {
    uint64_t x[4] = {0}, y[4] = {0}, t[8], s[8] = {0};
    for (int i = 0; i < 32; i++) { x[i / 8] |= (uint64_t)k[i] << (8 * (i % 8)); y[i / 8] |= (uint64_t)a[i] << (8 * (i % 8)); s[i / 8] |= (uint64_t)r[i] << (8 * (i % 8)); }
    lmul<4>(t, x, y);
    ladd<8>(t, t, s);
    return reduce(limb_bytes<8>(t, 64));
  }
  static Bytes sign(int variant, const Bytes& sk, const Bytes& pk, const Bytes& m0, const Bytes& ctx, const Forger* f = nullptr) {
    Bytes h = expand(sk), D = dom(variant, ctx), m = variant == 2 ? sha512(m0) : m0;
    Bytes r = reduce(sha512(cat(cat(D, sub(h, 32, 32)), f && f->reuse ? f->other : m)));
    if (f && f->neutral) r.assign(r.size(), 0);
    Bytes R = bmul<E1>(r.data(), 32).enc();
    if (f) f->apply(R);
    Bytes k = reduce(sha512(cat(cat(cat(D, R), pk), m)));
    return cat(R, muladd(k, sub(h, 0, 32), r));
  }
  static bool s_ok(const uint8_t* s) {
    uint64_t x[4] = {0};
    for (int i = 0; i < 32; i++) x[i / 8] |= (uint64_t)s[i] << (8 * (i % 8));
    return lcmp<4>(x, L25519()) < 0;
  }
  static bool torsion_free(const E1& A) { Bytes l = limb_bytes<4>(L25519(), 32); E1 t = smul<E1>(l.data(), 32, A); return t.X.is_zero() && t.Y == t.Z; }
  // 0 valid, 1 invalid, 2 undecodable public key, 3 valid only when the
  // equation is multiplied by the cofactor, or for one representative of k
  // modulo the group order (RFC 8032 leaves both open)
  static int verify(int variant, const Bytes& pk, const Bytes& m0, const Bytes& ctx, const Bytes& sig) {
    E1 A;
    if (!E1::dec(A, pk.data())) return 2;
    if (!s_ok(&sig[32])) return 1;
    Bytes D = dom(variant, ctx), m = variant == 2 ? sha512(m0) : m0;
    Bytes k = reduce(sha512(cat(cat(cat(D, sub(sig, 0, 32)), pk), m)));
    E1 nA = A;
    nA.X = nA.X.neg();
    nA.T = nA.T.neg();
    Bytes R = bmul<E1>(&sig[32], 32).add(smul<E1>(k.data(), 32, nA)).enc();
    if (R == sub(sig, 0, 32)) return torsion_free(A) ? 0 : 3;
    E1 P;
    if (!E1::dec(P, sig.data())) return 1;
    P.X = P.X.neg();
    P.T = P.T.neg();
    E1 D2 = bmul<E1>(&sig[32], 32).add(smul<E1>(k.data(), 32, nA)).add(P);
    for (int i = 0; i < 3; i++) D2 = D2.add(D2);
    return D2.X.is_zero() && D2.Y == D2.Z ? 3 : 1;
  }
};
struct Ed448 {
  static const int K = 57;
  static Bytes expand(const Bytes& sk) { Bytes h = shake256(sk, 114); h[0] &= 252; h[55] |= 128; h[56] = 0; return h; }
  static Bytes pub(const Bytes& sk) { Bytes h = expand(sk); return bmul<E4>(h.data(), 57).enc(); }
  static Bytes dom(int variant, const Bytes& ctx) {
    const char* s = "SigEd448";
    Bytes d(s, s + 8);
    d.push_back(variant == 2);
    d.push_back((uint8_t)ctx.size());
    app(d, ctx);
    return d;
  }
  static Bytes reduce(const Bytes& x) { uint64_t r[7]; smod<7>(r, x.data(), (int)x.size(), L448()); return limb_bytes<7>(r, 57); }
  static Bytes muladd(const Bytes& k, const Bytes& a, const Bytes& r) {
    uint64_t x[7] = {0}, y[7] = {0}, t[14], s[14] = {0};
    for (int i = 0; i < 56; i++) { x[i / 8] |= (uint64_t)k[i] << (8 * (i % 8)); y[i / 8] |= (uint64_t)a[i] << (8 * (i % 8)); s[i / 8] |= (uint64_t)r[i] << (8 * (i % 8)); }
    lmul<7>(t, x, y);
    ladd<14>(t, t, s);
    return reduce(limb_bytes<14>(t, 112));
  }
  static Bytes sign(int variant, const Bytes& sk, const Bytes& pk, const Bytes& m0, const Bytes& ctx, const Forger* f = nullptr) {
    Bytes h = expand(sk), D = dom(variant, ctx), m = variant == 2 ? shake256(m0, 64) : m0;
    Bytes r = reduce(shake256(cat(cat(D, sub(h, 57, 57)), f && f->reuse ? f->other : m), 114));
    if (f && f->neutral) r.assign(r.size(), 0);
    Bytes R = bmul<E4>(r.data(), 57).enc();
    if (f) f->apply(R);
    Bytes k = reduce(shake256(cat(cat(cat(D, R), pk), m), 114));
    return cat(R, muladd(k, sub(h, 0, 57), r));
  }
  static bool s_ok(const uint8_t* s) {
    if (s[56]) return false;
    uint64_t x[7] = {0};
    for (int i = 0; i < 56; i++) x[i / 8] |= (uint64_t)s[i] << (8 * (i % 8));
    return lcmp<7>(x, L448()) < 0;
  }
  static bool torsion_free(const E4& A) { Bytes l = limb_bytes<7>(L448(), 57); E4 t = smul<E4>(l.data(), 57, A); return t.X.is_zero() && t.Y == t.Z; }
  static int verify(int variant, const Bytes& pk, const Bytes& m0, const Bytes& ctx, const Bytes& sig) {
    E4 A;
    if (!E4::dec(A, pk.data())) return 2;
    if (!s_ok(&sig[57])) return 1;
    Bytes D = dom(variant, ctx), m = variant == 2 ? shake256(m0, 64) : m0;
    Bytes k = reduce(shake256(cat(cat(cat(D, sub(sig, 0, 57)), pk), m), 114));
    E4 nA = A;
    nA.X = nA.X.neg();
    Bytes R = bmul<E4>(&sig[57], 57).add(smul<E4>(k.data(), 57, nA)).enc();
    if (R == sub(sig, 0, 57)) return torsion_free(A) ? 0 : 3;
    E4 P;
    if (!E4::dec(P, sig.data())) return 1;
    P.X = P.X.neg();
    E4 D2 = bmul<E4>(&sig[57], 57).add(smul<E4>(k.data(), 57, nA)).add(P);
    for (int i = 0; i < 2; i++) D2 = D2.add(D2);
    return D2.X.is_zero() && D2.Y == D2.Z ? 3 : 1;
  }
};

// ---------------------------------------------------------------- X25519 / X448
inline void clamp(Bytes& k) {
  if (k.size() == 32) { k[0] &= 248; k[31] &= 127; k[31] |= 64; }
  else { k[0] &= 252; k[55] |= 128; }
}
template <class P> inline Bytes xdh(const Bytes& k0, const Bytes& u0, uint64_t a24, bool any = false, bool* neutral = nullptr) {
  typedef Fe<P> F;
  const int n = P::BYTES;
  Bytes k = k0, ub = u0;
  if (!any) clamp(k);
  if (n == 32) ub[31] &= 127;
  F x1 = F::from(ub.data()), x2 = F::num(1), z2 = F::zero(), x3 = x1, z3 = F::num(1), a = F::num(a24);
  for (int t = P::BITS - 1; t >= 0; t--) {
    bool b = (k[t / 8] >> (t % 8)) & 1;
    if (b) { std::swap(x2, x3); std::swap(z2, z3); }
    F A = x2 + z2, AA = A * A, B = x2 - z2, BB = B * B, E = AA - BB, C = x3 + z3, D = x3 - z3, DA = D * A, CB = C * B;
    F s = DA + CB, df = DA - CB;
    x3 = s * s;
    z3 = x1 * (df * df);
    x2 = AA * BB;
    z2 = E * (AA + a * E);
    if (b) { std::swap(x2, x3); std::swap(z2, z3); }
  }
  if (neutral) *neutral = z2.is_zero();
  return (x2 * z2.inv()).bytes();
}
inline Bytes x25519(const Bytes& k, const Bytes& u) { return xdh<P25519>(k, u, 121665); }
inline Bytes x448(const Bytes& k, const Bytes& u) { return xdh<P448>(k, u, 39081); }
// A public value with which the key k gives the secret next at or after `want`
// (as an integer) that a point of the group of prime order has.
template <class P> inline Bytes xdh_aim(const Bytes& k0, const Bytes& want, uint64_t a24, uint64_t A) {
  const int N = P::N, n = P::BYTES;
  typedef Fe<P> F;
  const uint64_t* L = n == 32 ? L25519() : L448();
  Bytes order = limb_bytes<P::N>(L, n), k = k0;
  clamp(k);
  uint64_t kk[N], e[N], two[N] = {2}, x[N] = {1}, t[2 * N];
  smod<P::N>(kk, k.data(), n, L);
  lsub<P::N>(e, L, two);
  for (int i = 64 * N - 1; i >= 0; i--) {
    lmul<P::N>(t, x, x);
    Bytes b = limb_bytes<2 * P::N>(t, 2 * n);
    smod<P::N>(x, b.data(), 2 * n, L);
    if (!((e[i / 64] >> (i % 64)) & 1)) continue;
    lmul<P::N>(t, x, kk);
    b = limb_bytes<2 * P::N>(t, 2 * n);
    smod<P::N>(x, b.data(), 2 * n, L);
  }
  Bytes m = limb_bytes<P::N>(x, n);
  uint64_t half[N], one[N] = {1};
  lsub<P::N>(half, P::p(), one);
  lshr<P::N>(half, 1);
  for (F T = F::from(want.data());; T = T + F::num(1)) {
    if (T.is_zero()) continue;
    F y2 = (T * T + F::num(A) * T + F::num(1)) * T;
    if (!(y2.pow(half, N) == F::num(1))) continue;
    bool neutral;
    xdh<P>(order, T.bytes(), a24, true, &neutral);
    if (!neutral) continue;
    return xdh<P>(m, T.bytes(), a24, true);
  }
}
inline Bytes x25519_aim(const Bytes& k, const Bytes& want) { return xdh_aim<P25519>(k, want, 121665, 486662); }
inline Bytes x448_aim(const Bytes& k, const Bytes& want) { return xdh_aim<P448>(k, want, 39081, 156326); }
inline Bytes x25519_base(const Bytes& k) { Bytes u(32); u[0] = 9; return x25519(k, u); }
inline Bytes x448_base(const Bytes& k) { Bytes u(56); u[0] = 5; return x448(k, u); }

// ---------------------------------------------------------------- hash to edwards25519
// u_i = SHA-512(i || msg) mod L, Elligator 2 on curve25519, birational map,
// sum, times 8. Returns X || Y affine.
struct H2C {
  static Bytes field(uint8_t prefix, const Bytes& msg) {
    Bytes m(1, prefix);
    app(m, msg);
    return Ed25519::reduce(sha512(m));
  }
  static bool is_square(const F1& a) {
    uint64_t e[4], one[4] = {1};
    lsub<4>(e, P25519::p(), one);
    lshr<4>(e, 1);
    F1 r = a.pow(e, 4);
    return r.is_zero() || r == F1::num(1);
  }
  static F1 sqrt(const F1& a) {
    uint64_t e[4], three[4] = {3}, one[4] = {1};
    ladd<4>(e, P25519::p(), three);
    lshr<4>(e, 3);
    F1 r = a.pow(e, 4);
    if (!(r * r == a)) {
      uint64_t e4[4];
      lsub<4>(e4, P25519::p(), one);
      lshr<4>(e4, 2);
      r = r * F1::num(2).pow(e4, 4);
    }
    return r;
  }
  static E1 map(const Bytes& ub) {
    F1 u = F1::from(ub.data()), J = F1::num(486662), one = F1::num(1);
    F1 den = one + (u * u + u * u);
    F1 x1 = den.is_zero() ? J.neg() : J.neg() * den.inv();
    F1 g1 = x1 * x1 * x1 + J * x1 * x1 + x1, x, y;
    if (is_square(g1)) { x = x1; y = sqrt(g1); if (!y.odd()) y = y.neg(); }
    else { x = x1.neg() - J; F1 g2 = x * x * x + J * x * x + x; y = sqrt(g2); if (y.odd()) y = y.neg(); }
    F1 c1 = sqrt(F1::num(486664).neg());
    if (c1.odd()) c1 = c1.neg();
    F1 ex, ey;
    if (y.is_zero() || (x + one).is_zero()) { ex = F1::zero(); ey = one; }
    else { ex = c1 * x * y.inv(); ey = (x - one) * (x + one).inv(); }
    return E1{ex, ey, one, ex * ey};
  }
  static Bytes h2c(const Bytes& msg) {
    E1 q = map(field(0, msg)).add(map(field(1, msg)));
    for (int i = 0; i < 3; i++) q = q.add(q);
    F1 zi = q.Z.inv();
    return cat((q.X * zi).bytes(), (q.Y * zi).bytes());
  }
};
// what srt gives for x^2: of the two roots the one with the exponent of the
// standard (p = 5 mod 8), or the inverse of a root (p = 3 mod 4)
inline F1 root_of_square(const F1& x) { return H2C::sqrt(x * x); }
inline F4 root_of_square(const F4& x) {
  uint64_t e[7], three[7] = {3};
  lsub<7>(e, P448::p(), three);
  lshr<7>(e, 2);
  return (x * x).pow(e, 7);
}
}  // namespace ref
