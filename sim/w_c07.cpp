// C07: allocations fail; objects are allocated, used and released in any order.
#include "ops.hpp"
#include "lib.hpp"
#include <algorithm>
using std::string;

static const char* KINDS[] = {"e25519.pure", "e25519.ctx", "e25519.ph", "e448.ctx", "e448.ph",
  "s25519.pure", "s25519.ctx", "s25519.ph", "s448.ctx", "s448.ph", "x25519", "x25519_x64", "x448",
  "fp25519.1f", "fp25519.1r", "fp25519.2r", "fp25519.4r", "fp448.1f", "fp448.1r", "fp448.2r", "fp448.4r"};
static const size_t NK = sizeof KINDS / sizeof *KINDS;
struct Kind { void* alloc = nullptr; void (*rel)(void*) = nullptr; size_t obj = 0; void *ser = nullptr, *unser = nullptr; size_t bytes = 0; bool m4 = false; };
static Kind kind(const string& k, int lib) {
  const Lib* L = g_libs[lib & 3];
  Kind t;
  auto key = [&](auto& s, bool sig) { t.alloc = (void*)(sig ? s.allocSignature : s.allocKey); t.rel = sig ? s.freeSignature : s.freeKey; t.obj = sig ? s.signature_size : s.key_size; };
  auto fp = [&](auto& m, size_t obj, int lanes, bool m4) { t.alloc = (void*)m.alloc; t.rel = m.free; t.obj = obj; t.ser = (void*)m.ser; t.unser = (void*)m.unser; t.bytes = lanes * (m4 ? 56 : 32); t.m4 = m4; };
  string a = k.substr(0, k.find('.')), b = k.find('.') == string::npos ? "" : k.substr(k.find('.') + 1);
  bool sig = k[0] == 's';
  if (a == "e25519" || a == "s25519") { if (b == "pure") key(L->e255->Pure, sig); else if (b == "ctx") key(L->e255->Context, sig); else key(L->e255->PreHash, sig); t.obj = sig ? 64 : 32; }
  else if (a == "e448" || a == "s448") { if (b == "ctx") key(L->e448->PureContext, sig); else key(L->e448->PreHash, sig); t.obj = sig ? 114 : 57; }
  else if (k[0] == 'x') { int i = k == "x25519" ? 0 : k == "x448" ? 2 : 1; t.alloc = (void*)L->x[i]->allocKey; t.rel = L->x[i]->freeKey; t.obj = i == 2 ? 56 : 32; }
  else {
    int f = a == "fp448";
    const auto* F = L->fp[f];
    if (b == "1f") fp(F->_1w_full.arith.misc, f ? 56 : 32, 1, f);
    else if (b == "1r") fp(F->_1w_red.arith.misc, f ? 128 : 96, 1, f);
    else if (b == "2r") fp(F->_2w_red.arith.misc, f ? 256 : 160, 2, f);
    else fp(F->_4w_red.arith.misc, f ? 512 : 320, 4, f);
  }
  return t;
}
static Plan gen(Rng& r) {
  Plan p;
  Pool pool = make_pool(r, 2, r.chance(5));
  int n = (int)r.range(8, 40);
  std::vector<int> ids;
  int next = 0;
  bool ops = r.chance(75);
  for (int i = 0; i < n; i++) {
    if (i == 0 || r.chance(12)) {
      Line l("heap");
      l.set("fill", r.below(256));
      if (r.chance(50)) l.set("fifo", 1);
      u64 m = r.below(5);
      if (m == 1) l.set("all", 1);
      else if (m > 1) {
        string f;
        u64 o = r.below(4);
        for (int k = 0; k < 12; k++) { f += (k ? "," : "") + std::to_string(o); o += m == 2 ? r.range(1, 3) : r.range(1, 9); }
        l.set("fail", f);
      }
      p.push_back(l);
    }
    u64 c = r.below(100);
    if (c < 38 && ids.size() < 60) {
      Line l("alloc");
      l.set("id", (u64)next).set("kind", KINDS[r.below(NK)]);
      if (g_nlibs > 1 && r.chance(10)) l.set("lib", r.range(1, g_nlibs - 1));
      ids.push_back(next++);
      p.push_back(l);
    } else if (c < 52 && !ids.empty()) p.push_back(Line("use").set("id", (u64)ids[r.below(ids.size())]).set("seed", r.below(1 << 20)));
    else if (c < 68 && !ids.empty()) {
      size_t j = r.chance(40) ? 0 : r.chance(50) ? ids.size() - 1 : r.below(ids.size());
      p.push_back(Line("free").set("id", (u64)ids[j]));
      ids.erase(ids.begin() + j);
    } else if (c < 71) p.push_back(Line("freenull").set("kind", KINDS[r.below(NK)]));
    else if (ops) {
      Line l = gen_op(r, pool, r.chance(55) ? G_H2C : G_ALL, r.chance(20));
      l.set("pl", r.below(50)).set("fill", r.below(256));
      if (g_nlibs > 1 && r.chance(10)) l.set("lib", r.range(1, g_nlibs - 1));
      p.push_back(l);
    }
  }
  return p;
}
struct Obj { Kind k; string name; uint8_t* p = nullptr; Bytes content; };
static void exec(const Plan& p) {
  std::map<u64, Obj> objs;
  auto live = [&] { u64 n = 0; for (auto& o : objs) n += o.second.p != nullptr; return n; };
  auto health = [&](const string& what) {
    string e = heap_check();
    if (!e.empty()) R->fail("heap", what + ": " + e);
    if (heap_live() > live()) R->fail("leak", what + fmt(": %llu heap blocks are live, %llu are in use", (unsigned long long)heap_live(), (unsigned long long)live()));
    if (heap_live() < live()) R->fail("lost", what + ": a block in use was released");
    for (auto& o : objs)
      if (o.second.p && !o.second.content.empty() && memcmp(o.second.p, o.second.content.data(), o.second.content.size()))
        R->fail("overlap", what + " changed the content of another object (" + o.second.name + ")");
  };
  auto release = [&](u64 id) {
    Obj& o = objs[id];
    if (!o.p) { objs.erase(id); return; }
    void (*f)(void*) = o.k.rel;
    uint8_t* q = o.p;
    GuardResult g = guarded([&] { lib_call(f, (void*)q); });
    if (g.oc != OC_OK) R->fail("crash", "release of " + o.name + " ended with " + g.text());
    string nm = o.name;
    objs.erase(id);
    R->order("free");
    R->ev("free " + nm);
    health("release of " + nm);
  };
  for (auto& l : p) {
    if (l.verb == "heap") {
      HeapCfg& c = heap_cfg();
      c.fill = (uint8_t)l.num("fill", 0xA7);
      c.fifo = l.num("fifo");
      c.fail_all = l.num("all");
      c.fail.clear();
      if (l.has("fail")) for (auto& w : split(l.get("fail"), ',')) if (!w.empty()) c.fail.push_back(heap_allocs() + strtoull(w.c_str(), 0, 10));
      R->ev(l.text());
    } else if (l.verb == "alloc") {
      if (objs.count(l.num("id"))) continue;
      Obj o;
      o.name = l.get("kind", "x25519");
      o.k = kind(o.name, (int)l.num("lib"));
      u64 f0 = heap_failed();
      R->order(o.name);
      R->st->steps++;
      R->st->ops["alloc " + o.name]++;
      u64 v = 0;
      GuardResult g = guarded([&] { v = lib_callv(o.k.alloc, 0, nullptr); });
      if (g.oc != OC_OK) R->fail("crash", "allocation of " + o.name + " ended with " + g.text());
      o.p = (uint8_t*)v;
      if (!o.p) {
        if (heap_failed() == f0) R->fail("null", "allocation of " + o.name + " returned null although memory was available");
        R->probe("null_returned");
        R->ev("alloc " + o.name + " null");
        health("failed allocation of " + o.name);
        continue;
      }
      if (!heap_room(o.p)) R->fail("bad-pointer", "allocation of " + o.name + (heap_failed() > f0 ? " returned a pointer to no live block after the allocator failed" : " returned a pointer to no live block"));
      if ((u64)o.p % 32) R->fail("alignment", "allocation of " + o.name + " is not aligned to 32 bytes");
      if (heap_room(o.p) < o.k.obj) R->fail("too-small", "allocation of " + o.name + fmt(" has %zu bytes instead of %zu", heap_room(o.p), o.k.obj));
      for (auto& q : objs) if (q.second.p == o.p) R->fail("overlap", "allocation of " + o.name + " returned a block in use");
      objs[l.num("id")] = o;
      R->ev("alloc " + o.name);
      health("allocation of " + o.name);
    } else if (l.verb == "use") {
      auto it = objs.find(l.num("id"));
      if (it == objs.end()) continue;
      Obj& o = it->second;
      R->st->steps++;
      if (o.k.ser) {
        Bytes v = rnd_bytes(l.num("seed"), o.k.bytes), w(o.k.bytes);
        Buf b = place(3, o.k.bytes, true, 32, 0, 0x77), c = place(4, o.k.bytes, true, 32, 0, 0x78);
        memcpy(b.p, v.data(), v.size());
        GuardResult g = guarded([&] {
          lib_call((void (*)(void*, void*))o.k.unser, (void*)o.p, (void*)b.p);
          lib_call((void (*)(void*, void*))o.k.ser, (void*)c.p, (void*)o.p);
        });
        if (g.oc != OC_OK) R->fail("crash", "use of an allocated " + o.name + " ended with " + g.text());
        size_t B = o.k.m4 ? 56 : 32;
        for (size_t i = 0; i < v.size(); i += B) {
          Bytes x = o.k.m4 ? ref::F4::from(&v[i]).bytes() : ref::F1::from(&v[i]).bytes();
          if (memcmp(x.data(), c.p + i, B)) R->fail("wrong-result", "an allocated " + o.name + " does not hold the value stored in it");
        }
        buf_free(b);
        buf_free(c);
        o.content.assign(o.p, o.p + o.k.obj);
      } else {
        o.content = rnd_bytes(l.num("seed"), o.k.obj);
        memcpy(o.p, o.content.data(), o.k.obj);
      }
      R->ev("use " + o.name);
      health("use of " + o.name);
    } else if (l.verb == "free") {
      if (objs.count(l.num("id"))) release(l.num("id"));
    } else if (l.verb == "freenull") {
      Kind k = kind(l.get("kind", "x25519"), 0);
      R->st->steps++;
      R->probe("null_released");
      GuardResult g = guarded([&] { lib_call(k.rel, (void*)nullptr); });
      if (g.oc != OC_OK) R->fail("crash", "release of null (" + l.get("kind") + ") ended with " + g.text());
      R->ev("freenull");
      health("release of null");
    } else if (l.verb == "op") {
      u64 f0 = heap_failed();
      run_op_line(l, "with failing allocations");
      if (heap_failed() > f0) R->probe("result_despite_failed_allocation");
      health(l.get("op"));
    }
  }
  while (!objs.empty()) release(objs.begin()->first);
  health("the end");
}
World w_c07() { return {"c07", gen, exec}; }
