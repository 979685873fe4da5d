// C09: every buffer ends or begins at an inaccessible page, inputs are
// read-only, allocations and the entropy source fail.
#include "targets.hpp"
#include "lib.hpp"
using std::string;

static size_t near_len(Rng& r) {
  // around the block sizes of everything inside
  static const size_t B[] = {0, 16, 32, 57, 64, 72, 114, 128, 136, 144, 168, 256, 272, 336, 384, 512, 640, 1024, 2048, 4096, 8192};
  size_t b = B[r.below(sizeof B / sizeof *B)], d = r.below(9);
  return r.chance(50) ? b + d : b - std::min(b, d);
}
static Plan gen(Rng& r) {
  Plan p;
  Pool pool = make_pool(r, (int)r.range(1, 3), r.chance(3));
  for (auto& m : pool.msg) if (r.chance(60)) m = gen_data(r, near_len(r));
  for (int k = 0; k < 3; k++) pool.ctx.push_back(gen_data(r, std::min<size_t>(255, near_len(r))));
  int n = (int)r.range(5, 26);
  unsigned kinds = G_ALL;
  if (r.chance(50)) { kinds = 0; while (!kinds) kinds = (unsigned)r.below(64); }
  for (int i = 0; i < n; i++) {
    u64 c = r.below(100);
    if (c < 5) { Line l("heap"); l.set("fill", r.below(256)); if (r.chance(70)) l.set("fail", fmt("%llu,%llu", (unsigned long long)r.below(4), (unsigned long long)r.range(2, 9))); p.push_back(l); }
    else if (c < 13) { Line l("rand"); l.set("kind", RAND_KINDS[r.below(RAND_KINDS.size())]).set("at", r.pick({"e", "s"})).set("fill", r.below(256)).set("n", r.below(300)); if (r.chance(60)) l.set("read", fmt("s:%llu,EINTR,s:%llu", (unsigned long long)r.range(1, 40), (unsigned long long)r.range(1, 40))); p.push_back(l); }
    else if (c < 20) { string k = PRINT_KINDS[r.below(PRINT_KINDS.size())]; Prt t = printer(k, 0); p.push_back(Line("print").set("kind", k).set("at", r.pick({"e", "s"})).set("v", fmt("r:%llx:%zu", (unsigned long long)r.below(1 << 20), t.lane * t.lanes))); }
    else {
      Line l = gen_op(r, pool, kinds, r.chance(30));
      if (r.chance(60) && l.has("cuts")) l.set("sep", 1);
      if (g_nlibs > 1 && r.chance(15)) l.set("lib", r.range(1, g_nlibs - 1));
      l.set("fill", r.chance(50) ? r.pickn({0, 255, 0xAA}) : r.below(256));
      if (r.chance(40)) l.set("poison", r.next() >> 8);
      l.set("pl", r.below(1000));
      u64 w = r.below(4);
      if (w != 1) p.push_back(Line(l).set("at", "e"));
      if (w != 0) p.push_back(Line(l).set("at", "s"));
      if (w == 3) p.push_back(l);
    }
  }
  return p;
}
static ssize_t sink(void*, const char*, size_t n) { return (ssize_t)n; }
static void exec(const Plan& p) {
  u64 seed = 1;
  for (auto& l : p) {
    if (l.verb == "heap") {
      HeapCfg& c = heap_cfg();
      c.fill = (uint8_t)l.num("fill");
      c.fail.clear();
      if (l.has("fail")) for (auto& w : split(l.get("fail"), ',')) c.fail.push_back(heap_allocs() + strtoull(w.c_str(), 0, 10));
    } else if (l.verb == "rand") {
      RandTarget t = rand_target(l.get("kind", "x25519"), 0, std::min<u64>(l.num("n"), 5000));
      if (!t.fn) continue;
      EntropyCfg c;
      c.seed = seed++;
      if (l.has("read")) c.read_script = split(l.get("read"), ',');
      entropy_reset(c);
      Buf b = place(7, t.obj, l.get("at", "e") == "e", t.align, 0, (uint8_t)l.num("fill"));
      R->fault("guard_page");
      R->order("rand");
      R->st->steps++;
      R->st->ops["rand " + l.get("kind")]++;
      GuardResult g = guarded([&] {
        if (l.get("kind") == "prng") lib_call((void (*)(uint8_t*, size_t))t.fn, b.p, t.obj);
        else lib_call((void (*)(void*))t.fn, (void*)b.p);
      });
      if (g.oc != OC_OK) R->fail("crash:rand", "generation of " + l.get("kind") + " ended with " + g.text());
      string e = buf_check_surroundings(b);
      if (!e.empty()) R->fail("stray-write:rand", "generation of " + l.get("kind") + " wrote outside: " + e);
      R->ev("rand " + l.get("kind"), Bytes(b.p, b.p + t.obj));
      buf_free(b);
    } else if (l.verb == "print") {
      string k = l.get("kind", "x25519");
      Prt t = printer(k, 0);
      Bytes v = spec_bytes(l.get("v", "z:0"));
      v.resize(t.lane * t.lanes);
      Buf b = place(9, t.obj, l.get("at", "e") == "e", t.unser || t.point ? 32 : 1, 0, 0x44), in = place(11, v.size(), true, 32, 0, 0x45);
      memcpy(in.p, v.data(), v.size());
      if (t.unser && !t.raw) {
        GuardResult g = guarded([&] { lib_call((void (*)(void*, void*))t.unser, (void*)b.p, (void*)in.p); });
        if (g.oc != OC_OK) R->fail("crash:unser", "unser of " + k + " ended with " + g.text());
      } else memcpy(b.p, v.data(), v.size());
      string e = buf_check_surroundings(b);
      if (!e.empty()) R->fail("stray-write:unser", "unser of " + k + " wrote outside: " + e);
      buf_protect(b, true);
      R->fault("guard_page");
      R->fault("read_only_input");
      R->order("print");
      R->st->steps++;
      R->st->ops["print " + k]++;
      cookie_io_functions_t io = {nullptr, sink, nullptr, nullptr};
      FILE* f = fopencookie(nullptr, "w", io);
      GuardResult g = guarded([&] { lib_call((void (*)(FILE*, void*))t.fn, f, (void*)b.p); });
      if (g.oc != OC_OK) R->fail("crash:print", "printing a " + k + " ended with " + g.text());
      fclose(f);
      R->ev("print " + k);
      buf_free(b);
      buf_free(in);
    } else if (l.verb == "op") {
      R->fault("guard_page");
      R->fault("read_only_input");
      if (l.get("at") == "e") R->probe("guard_behind");
      else if (l.get("at") == "s") R->probe("guard_before");
      run_op_line(l, "guarded memory");
    }
    string e = heap_check();
    if (!e.empty()) R->fail("heap", "guarded memory: " + e);
  }
}
World w_c09() { return {"c09", gen, exec}; }
