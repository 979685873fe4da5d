// Calls as items of a schedule.
#include <unistd.h>
#include "conc.hpp"
#include "lib.hpp"
#include "targets.hpp"
using std::string;

bool item_make(Item& it, const Line& l) {
  it.l = l;
  if (l.has("rand")) { it.kind = 1; it.name = "rand " + l.get("rand"); it.text = it.name; it.devseed = l.num("dev", 1); RandTarget t = rand_target(l.get("rand"), 0, 48); return t.fn != nullptr; }
  if (l.has("print")) { it.kind = 2; it.name = "print " + l.get("print"); it.text = it.name + " " + l.get("v"); return printer(l.get("print"), 0).fn != nullptr; }
  if (!l.has("op")) return false;
  it.kind = 0;
  it.op = make_op(l);
  it.name = it.op->name;
  it.text = it.op->text;
  return true;
}
void item_put(Item& it, Shared* sh) {
  u64 pl = it.l.num("pl");
  it.own.clear(); it.out.clear(); it.pin.clear(); it.pout.clear(); it.pscr.clear();
  auto put = [&](const string& tag, size_t len, size_t align, uint8_t fill) {
    u64 h = mix64(pl ^ hash_str(tag));
    Buf b = place(h >> 20, len, h & 1, align, (h >> 2) % 150, fill);
    return b;
  };
  if (it.kind == 1) {
    RandTarget t = rand_target(it.l.get("rand"), 0, 48);
    Buf b = put("r", t.obj, t.align, 0x77);
    it.own.push_back(b);
    it.out.push_back(b);
    void* fn = t.fn;
    size_t n = it.l.get("rand") == "prng" ? t.obj : 0;
    uint8_t* p = b.p;
    it.noret = true;
    it.call = [fn, n, p]() -> u64 { if (n) lib_call((void (*)(uint8_t*, size_t))fn, p, n); else lib_call((void (*)(void*))fn, (void*)p); return 0; };
    return;
  }
  if (it.kind == 2) {
    Prt t = printer(it.l.get("print"), 0);
    Bytes v = spec_bytes(it.l.get("v"));
    v.resize(t.lane * t.lanes);
    Buf b = put("p", t.obj, 32, 0x44);
    it.own.push_back(b);
    if (t.unser && !t.raw) {
      Buf in = put("q", v.size(), 32, 0x45);
      memcpy(in.p, v.data(), v.size());
      guarded([&] { lib_call((void (*)(void*, void*))t.unser, (void*)b.p, (void*)in.p); });
      buf_free(in);
    } else memcpy(b.p, v.data(), std::min(v.size(), b.len));
    it.f = open_memstream(&it.txt, &it.txtn);
    FILE* f = it.f;
    uint8_t* p = b.p;
    void* fn = t.fn;
    it.noret = true;
    it.call = [fn, f, p]() -> u64 { lib_call((void (*)(FILE*, void*))fn, f, (void*)p); return 0; };
    return;
  }
  for (auto& a : it.op->in) {
    string key(a.data.begin(), a.data.end());
    key += fmt("|%zu", a.align);
    if (sh && sh->count(key)) { it.pin.push_back((*sh)[key].p); continue; }
    Buf b = put("i" + a.name, a.data.size(), a.align, 0x5A);
    if (!a.data.empty()) memcpy(b.p, a.data.data(), a.data.size());
    it.pin.push_back(b.p);
    if (sh) { (*sh)[key] = b; shared_add(b.p, b.len); }
    else it.own.push_back(b);
  }
  for (auto& a : it.op->out) { Buf b = put("o" + a.name, a.len, a.align, 0x77); it.own.push_back(b); it.out.push_back(b); it.pout.push_back(b.p); }
  for (auto& a : it.op->scr) { Buf b = put("s" + a.name, a.len, a.align, 0x78); it.own.push_back(b); it.pscr.push_back(b.p); }
  it.noret = it.op->vret;
  Item* me = &it;
  it.call = [me]() -> u64 { return me->op->call(me->pin.data(), me->pout.data(), me->pscr.data()); };
}
u64 item_exec(Item& it) {
  Rng dev(mix64(it.devseed * 77 + 5));
  Rng* was = g_edel_rng;
  g_edel_rng = &dev;
  u64 r = it.call();
  g_edel_rng = was;
  return r;
}
Outcome1 item_outcome(Item& it) {
  Outcome1 o;
  o.g = it.g;
  o.ret = it.noret ? 0 : (uint32_t)it.ret;
  for (auto& b : it.out) { o.out.push_back(Bytes(b.p, b.p + b.len)); if (o.stray.empty()) o.stray = buf_check_surroundings(b); }
  if (it.f) { fflush(it.f); if (it.txt) o.out.push_back(Bytes(it.txt, it.txt + it.txtn)); }
  return o;
}
void item_release(Item& it) {
  for (auto& b : it.own) buf_free(b);
  it.own.clear();
  if (it.f) { fclose(it.f); free(it.txt); it.f = nullptr; it.txt = nullptr; }
}
string outcome_diff(const Item& it, const Outcome1& got, const Outcome1& want) {
  auto sh = [](const Bytes& b) { return b.size() <= 40 ? hex(b) : hex(b.data(), 20) + ".." + hex(b.data() + b.size() - 8, 8); };
  if (got.g.oc != want.g.oc) return "ended with " + got.g.text() + " instead of " + want.g.text();
  if (want.g.oc != OC_OK) return "";
  if (got.ret != want.ret) return fmt("returned %llu instead of %llu", (unsigned long long)got.ret, (unsigned long long)want.ret);
  for (size_t i = 0; i < want.out.size(); i++)
    if (got.out[i] != want.out[i]) return "gave " + (it.kind == 0 ? it.op->out[i].name : string("result")) + "=" + sh(got.out[i]) + " instead of " + sh(want.out[i]);
  if (!got.stray.empty() && want.stray.empty()) return "wrote outside its output: " + got.stray;
  return "";
}
Line gen_item(Rng& r, const Pool& p, unsigned kinds) {
  u64 c = r.below(100);
  if ((kinds & 64) && c < (kinds == 64 ? 60 : 8)) return Line("item").set("rand", RAND_KINDS[r.below(RAND_KINDS.size())]).set("dev", r.below(1000));
  if ((kinds & 64) && c < (kinds == 64 ? 100 : 16)) {
    string k = PRINT_KINDS[r.below(PRINT_KINDS.size())];
    Prt t = printer(k, 0);
    return Line("item").set("print", k).set("v", fmt("r:%llx:%zu", (unsigned long long)r.below(1 << 20), t.lane * t.lanes));
  }
  Line l = gen_op(r, p, (kinds & 63) ? kinds & 63 : G_ALL, r.chance(15));
  l.verb = "item";
  return l;
}
