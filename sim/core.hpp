// Basic parts of the simulator: PRNG, plans, run context.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#include "ref.hpp"

typedef uint64_t u64;
typedef std::vector<uint8_t> Bytes;

inline u64 mix64(u64 z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
inline u64 hash_bytes(const void* p, size_t n, u64 h = 0xcbf29ce484222325ull) {
  const uint8_t* b = (const uint8_t*)p;
  for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 0x100000001b3ull;
  return h;
}
inline u64 hash_str(const std::string& s, u64 h = 0xcbf29ce484222325ull) { return hash_bytes(s.data(), s.size(), h); }

struct Rng {
  u64 s;
  explicit Rng(u64 seed = 0) : s(mix64(seed ^ 0x5bf03635d1a3c2e9ull)) {}
  u64 next() { s += 0x9e3779b97f4a7c15ull; return mix64(s); }
  u64 below(u64 n) { return n ? next() % n : 0; }
  u64 range(u64 a, u64 b) { return a + below(b - a + 1); }  // inclusive
  bool chance(unsigned pct) { return below(100) < pct; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
  std::string pick(std::initializer_list<const char*> l) { return *(l.begin() + below(l.size())); }
  u64 pickn(std::initializer_list<u64> l) { return *(l.begin() + below(l.size())); }
};

inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...) {
  char b[4096];
  va_list ap;
  va_start(ap, f);
  int n = vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  if (n < 0) n = 0;
  if ((size_t)n >= sizeof b) n = sizeof b - 1;
  return std::string(b, n);
}
inline std::string hex(const uint8_t* p, size_t n) {
  std::string s;
  static const char* H = "0123456789abcdef";
  for (size_t i = 0; i < n; i++) { s += H[p[i] >> 4]; s += H[p[i] & 15]; }
  return s;
}
inline std::string hex(const Bytes& b) { return hex(b.data(), b.size()); }
inline std::vector<std::string> split(const std::string& s, char c) {
  std::vector<std::string> v;
  size_t i = 0;
  while (true) {
    size_t j = s.find(c, i);
    v.push_back(s.substr(i, j == std::string::npos ? j : j - i));
    if (j == std::string::npos) return v;
    i = j + 1;
  }
}

// ---------------------------------------------------------------- data specs
// r:<hexseed>:<len> random | z:<len> zeros | f:<len> 0xff | i:<len> 0,1,2..
// h:<hex> literal; then any number of ~<pos>.<hexmask> (xor, ignored when out
// of range).
inline void apply_tweaks(Bytes& b, const std::vector<std::string>& parts) {
  for (size_t i = 1; i < parts.size(); i++) {
    size_t dot = parts[i].find('.');
    if (dot == std::string::npos) continue;
    u64 pos = strtoull(parts[i].c_str(), 0, 10);
    u64 m = strtoull(parts[i].c_str() + dot + 1, 0, 16);
    if (pos < b.size()) b[pos] ^= (uint8_t)m;
  }
}
inline Bytes rnd_bytes(u64 seed, size_t n) {
  Bytes b(n);
  Rng r(seed);
  for (size_t i = 0; i < n; i += 8) {
    u64 x = r.next();
    for (size_t j = 0; j < 8 && i + j < n; j++) b[i + j] = (uint8_t)(x >> (8 * j));
  }
  return b;
}
inline Bytes spec_bytes(const std::string& spec) {
  std::vector<std::string> parts = split(spec, '~');
  std::vector<std::string> f = split(parts[0], ':');
  Bytes b;
  if (f[0] == "r" && f.size() >= 3) b = rnd_bytes(strtoull(f[1].c_str(), 0, 16), strtoull(f[2].c_str(), 0, 10));
  else if (f[0] == "z" && f.size() >= 2) b.assign(strtoull(f[1].c_str(), 0, 10), 0);
  else if (f[0] == "f" && f.size() >= 2) b.assign(strtoull(f[1].c_str(), 0, 10), 0xff);
  else if (f[0] == "i" && f.size() >= 2) { b.resize(strtoull(f[1].c_str(), 0, 10)); for (size_t i = 0; i < b.size(); i++) b[i] = (uint8_t)i; }
  else if (f[0] == "h" && f.size() >= 2)
    for (size_t i = 0; i + 1 < f[1].size(); i += 2) b.push_back((uint8_t)strtoul(f[1].substr(i, 2).c_str(), 0, 16));
  apply_tweaks(b, parts);
  return b;
}

// ---------------------------------------------------------------- plans
struct Line {
  std::string verb;
  std::vector<std::pair<std::string, std::string>> kv;
  Line() {}
  explicit Line(const std::string& v) : verb(v) {}
  Line& set(const std::string& k, const std::string& v) {
    for (auto& p : kv) if (p.first == k) { p.second = v; return *this; }
    kv.push_back({k, v});
    return *this;
  }
  Line& set(const std::string& k, u64 v) { return set(k, std::to_string(v)); }
  bool has(const std::string& k) const { for (auto& p : kv) if (p.first == k) return true; return false; }
  std::string get(const std::string& k, const std::string& d = "") const { for (auto& p : kv) if (p.first == k) return p.second; return d; }
  u64 num(const std::string& k, u64 d = 0) const { for (auto& p : kv) if (p.first == k) return strtoull(p.second.c_str(), 0, 10); return d; }
  std::string text() const {
    std::string s = verb;
    for (auto& p : kv) s += " " + p.first + "=" + p.second;
    return s;
  }
  static Line parse(const std::string& t) {
    Line l;
    for (auto& w : split(t, ' ')) {
      if (w.empty()) continue;
      size_t e = w.find('=');
      if (l.verb.empty()) l.verb = w;
      else if (e != std::string::npos) l.kv.push_back({w.substr(0, e), w.substr(e + 1)});
    }
    return l;
  }
};
typedef std::vector<Line> Plan;
inline std::string plan_text(const Plan& p) { std::string s; for (auto& l : p) s += l.text() + "\n"; return s; }
inline Plan plan_parse(const std::string& t) {
  Plan p;
  for (auto& l : split(t, '\n')) { if (l.empty() || l[0] == '#') continue; p.push_back(Line::parse(l)); }
  return p;
}

// ---------------------------------------------------------------- run context
struct Viol { std::string cls, msg; };
struct Stats {
  std::map<std::string, u64> faults, probes, ops;
  std::unordered_set<u64> distinct;   // by the measure of the world
  std::unordered_set<u64> inter;      // distinct interleavings / schedules
  u64 steps = 0;                      // simulated steps (see the world)
  u64 sim_us = 0;                     // simulated time of worlds with a clock
};
struct Run {
  u64 h = 0xcbf29ce484222325ull;  // event log hash
  bool verbose = false;
  Stats* st = nullptr;
  void ev(const std::string& s) {
    h = hash_str(s, h);
    h = (h ^ '\n') * 0x100000001b3ull;
    if (verbose) fprintf(stderr, "  %s\n", s.c_str());
  }
  void ev(const std::string& s, const Bytes& b) { ev(s + " #" + fmt("%016llx", (unsigned long long)hash_bytes(b.data(), b.size())) + "/" + std::to_string(b.size())); }
  u64 nfaults = 0;
  u64 sched = 0xcbf29ce484222325ull;  // hash of the order of operations and faults, without data
  void order(const std::string& s) { sched = hash_str(s, sched) * 0x100000001b3ull + 7; }
  void fault(const std::string& k) { st->faults[k]++; nfaults++; order(k); }
  void probe(const std::string& k) { st->probes[k]++; }
  [[noreturn]] void fail(const std::string& cls, const std::string& msg) { throw Viol{cls, msg}; }
};
extern Run* R;  // the current run

struct World {
  const char* name;
  Plan (*gen)(Rng&);
  void (*exec)(const Plan&);
};
