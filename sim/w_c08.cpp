// C08: long histories of calls over residue of every kind; every result must be
// the one prescribed for the inputs alone.
#include "ops.hpp"

static Plan gen(Rng& r) {
  Plan p;
  Pool pool = make_pool(r, (int)r.range(1, 4), r.chance(5));
  unsigned kinds = G_ALL;
  if (r.chance(50)) { kinds = 0; while (!kinds) kinds = (unsigned)r.below(64); }
  int n = (int)r.range(6, 40);
  u64 npl = r.range(1, 4);
  Line last;
  for (int i = 0; i < n; i++) {
    if (r.chance(5)) { p.push_back(Line("restart")); continue; }
    if (r.chance(4)) { p.push_back(Line("heap").set("fill", r.below(256))); continue; }
    Line l = !last.verb.empty() && r.chance(15) ? last : gen_op(r, pool, kinds, r.chance(30));
    l.set("pl", r.chance(80) ? r.below(npl) : r.next() % 100000);
    l.set("fill", r.chance(50) ? r.pickn({0, 255, 0xAA}) : r.below(256));
    if (r.chance(85)) l.set("poison", r.below(4) ? r.next() >> 8 : r.below(2));
    if (g_nlibs > 1 && r.chance(12)) l.set("lib", r.range(1, g_nlibs - 1));
    p.push_back(l);
    last = l;
  }
  if (r.chance(3)) {
    // one call very many times: counters
    Line l = gen_op(r, pool, G_HASH | G_FP, false);
    u64 n = r.pickn({300, 70000, 1100});
    size_t bytes = 200;
    for (auto& a : {"m", "m2"}) if (l.has(a)) bytes += spec_bytes(l.get(a)).size();
    bytes += l.num("d");
    if (l.get("op") == "fps") n = 1 + n / (2 * l.num("n", 1));
    l.set("rep", std::min<u64>(n, 100000000 / bytes));
    p.insert(p.begin() + r.below(p.size() + 1), l);
  } else if (r.chance(6)) {
    Line l = gen_op(r, pool, kinds, false);
    l.set("rep", r.pickn({17, 33, 65, 130, 260}));
    p.insert(p.begin() + r.below(p.size() + 1), l);
  }
  return p;
}
static void exec(const Plan& p) {
  u64 state = 0;
  for (auto& l : p) {
    if (l.verb == "restart") {
      R->probe("restart");
      R->fault("process_restart");
      libstate_restore();
      HeapCfg c;
      c.fill = (uint8_t)(0x31 + state);
      heap_reset(c);
      R->ev("restart");
    } else if (l.verb == "heap") {
      heap_cfg().fill = (uint8_t)l.num("fill");
      R->fault("heap_residue");
    } else if (l.verb == "op") {
      if (l.has("poison")) R->fault("stack_and_register_residue");
      R->fault("output_residue");
      u64 n = l.num("rep", 1);
      if (n > 1) R->probe("repeated_call");
      Line q = l;
      if (n == 1) run_op_line(q, "history");
      else {
        Op o = make_op(q);
        Placed pl;
        pl.put(o, l.num("pl"), (unsigned)l.num("fill", 0xAA), true);
        for (u64 i = 0; i < n; i++) {
          pl.run();
          R->st->steps++;
          pl.check(fmt("history, repetition %llu", (unsigned long long)i));
        }
        pl.release();
        R->ev(fmt("%s x %llu", o->name.c_str(), (unsigned long long)n));
      }
      state++;
    }
    std::string e = heap_check();
    if (!e.empty()) R->fail("heap", "history: " + e);
    if (heap_live()) R->fail("leak", fmt("history: %llu heap blocks still live after %s", (unsigned long long)heap_live(), l.get("op").c_str()));
  }
}
World w_c08() { return {"c08", gen, exec}; }
