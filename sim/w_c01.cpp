// C01: the entropy device misbehaves while keys are generated.
#include "targets.hpp"
#include "lib.hpp"
#include <algorithm>
using std::string;
static std::vector<string> script(const string& s) {
  std::vector<string> v;
  if (s.empty()) return v;
  for (auto& w : split(s, ',')) {
    size_t st = w.find('*');
    u64 n = st == string::npos ? 1 : std::min<u64>(500, strtoull(w.c_str() + st + 1, 0, 10));
    while (n--) v.push_back(w.substr(0, st));
  }
  return v;
}
static bool soft(const string& w, bool open) { return w == "ok" || w == "full" || w == "EINTR" || (!open && w.compare(0, 2, "s:") == 0 && w != "s:0"); }

static Plan gen(Rng& r) {
  Plan p;
  int n = (int)r.range(3, 14);
  u64 npl = r.range(1, 3);
  string last = RAND_KINDS[r.below(RAND_KINDS.size())];
  for (int i = 0; i < n; i++) {
    if (i == 0 || r.chance(60)) {
      Line l("ent");
      l.set("seed", r.below(1 << 20));
      if (r.chance(25)) l.set("fd", r.pickn({0, 1, 2, 3, 255, 1023}));
      string o, rd, c;
      auto add = [](string& s, const string& w) { s += (s.empty() ? "" : ",") + w; };
      bool hard = r.chance(35);
      if (r.chance(35)) for (u64 k = r.range(1, 4); k; k--) add(o, r.chance(hard ? 50 : 100) ? "EINTR" : r.pick({"EMFILE", "ENFILE", "ENOENT", "EACCES", "EIO", "ok"}));
      int mode = (int)r.below(6);
      u64 len = r.range(1, 14);
      if (mode)
        for (u64 k = 0; k < len; k++) {
          if (mode == 1) add(rd, fmt("s:%llu", (unsigned long long)r.range(1, 60)));
          else if (mode == 2) add(rd, r.chance(60) ? "EINTR" : fmt("s:%llu", (unsigned long long)r.range(1, 31)));
          else if (mode == 3) add(rd, r.chance(50) ? "s:1*" + std::to_string(r.range(1, 60)) : "EINTR*" + std::to_string(r.range(1, 40)));
          else if (mode == 4) add(rd, r.pick({"s:1", "s:31", "s:8", "s:16", "full", "EINTR", "s:0"}));
          else add(rd, hard && r.chance(30) ? r.pick({"EIO", "EAGAIN", "ENOSYS", "s:0", "EACCES"}) : r.pick({"s:1", "s:16", "s:33", "EINTR", "full"}));
        }
      if (r.chance(15)) add(c, r.pick({"EINTR", "EIO"}));
      if (!o.empty()) l.set("open", o);
      if (!rd.empty()) l.set("read", rd);
      if (!c.empty()) l.set("close", c);
      p.push_back(l);
    }
    if (r.chance(40)) last = RAND_KINDS[r.below(RAND_KINDS.size())];
    Line l("rand");
    l.set("kind", last).set("pl", r.chance(70) ? r.below(npl) : r.below(1000)).set("fill", r.below(256));
    if (last == "prng") l.set("n", r.chance(50) ? r.below(80) : r.pickn({0, 1, 255, 256, 257, 511, 512, 513, 1000, 4096, 4097}));
    if (r.chance(60)) l.set("poison", r.next() >> 8);
    if (g_nlibs > 1 && r.chance(15) && last != "prng") l.set("lib", r.range(1, g_nlibs - 1));
    p.push_back(l);
  }
  return p;
}
static void exec(const Plan& p) {
  bool hard = false;
  EntropyCfg cur;
  size_t lastout = 0;
  for (auto& l : p) {
    if (l.verb == "ent") {
      EntropyCfg c;
      c.seed = l.num("seed", 1) + 1000003 * ++lastout;
      c.first_fd = (int)std::min<u64>(l.num("fd", 5), 60000);
      c.open_script = script(l.get("open"));
      c.read_script = script(l.get("read"));
      c.close_script = script(l.get("close"));
      hard = false;
      for (auto& w : c.open_script) hard |= !soft(w, true);
      for (auto& w : c.read_script) hard |= !soft(w, false);
      if (c.first_fd == 0) R->fault("descriptor_zero");
      cur = c;
      entropy_reset(c);
      R->ev(l.text());
      continue;
    }
    if (l.verb != "rand") continue;
    string k = l.get("kind", "x25519");
    RandTarget t = rand_target(k, (int)l.num("lib"), std::min<u64>(l.num("n", 32), 20000));
    if (!t.fn) continue;
    u64 h = mix64(l.num("pl") + 17);
    Buf b = place(h >> 20, t.obj, h & 1, t.align, (h >> 2) % 100, (uint8_t)l.num("fill", 0xAA));
    Buf w = place(h >> 24, t.bytes, true, 32, 0, 0x33);
    size_t from = entropy_delivered().size();
    g_poison.on = l.has("poison");
    g_poison.seed = l.num("poison");
    R->order(k);
    R->st->steps++;
    R->st->ops["rand " + k]++;
    GuardResult g = guarded([&] {
      if (k == "prng") lib_call((void (*)(uint8_t*, size_t))t.fn, b.p, t.obj);
      else lib_call((void (*)(void*))t.fn, (void*)b.p);
    });
    g_poison.on = false;
    string what = "generation of " + k;
    string e = buf_check_surroundings(b);
    if (!e.empty()) R->fail("stray-write", what + " wrote outside the result: " + e);
    if (g.oc == OC_ABORT || g.oc == OC_EXIT) {
      if (!hard) R->fail("stopped", what + " stopped the program (" + g.text() + ") although the source only delivered short reads or was interrupted");
      R->probe("program_stopped");
      R->fault("process_restart");
      R->ev(k + " stopped the program");
      // a new process: nothing of the old one remains, the device goes on where it was
      libstate_restore();
      EntropyCfg c = cur;
      c.seed += 7919 * ++lastout;
      c.open_script.clear();
      c.read_script.clear();
      c.close_script.clear();
      hard = false;
      cur = c;
      entropy_reset(c);
      buf_free(b);
      buf_free(w);
      continue;
    }
    if (g.oc != OC_OK) R->fail(g.oc == OC_STUCK ? "no-progress" : "crash", what + " ended with " + g.text());
    Bytes del(entropy_delivered().begin() + from, entropy_delivered().end());
    Bytes got, want;
    if (t.ser) {
      // the serialised element must be the delivered bytes (mod p, lane by lane)
      GuardResult gs = guarded([&] { lib_call((void (*)(void*, void*))t.ser, (void*)w.p, (void*)b.p); });
      if (gs.oc != OC_OK) R->fail("crash", "ser after " + what + " ended with " + gs.text());
      got.assign(w.p, w.p + t.bytes);
    } else got.assign(b.p, b.p + t.bytes);
    bool ok = false;
    if (del.size() < t.bytes) R->fail("unfilled", what + fmt(" returned although the source delivered only %zu of %zu bytes during the call", del.size(), t.bytes));
    for (size_t o = 0; !ok && o + t.bytes <= del.size(); o++) {
      want.assign(del.begin() + o, del.begin() + o + t.bytes);
      if (t.ser)
        for (size_t i = 0; i < t.bytes; i += t.lane) {
          Bytes c = t.mod448 ? ref::F4::from(&want[i]).bytes() : ref::F1::from(&want[i]).bytes();
          std::copy(c.begin(), c.end(), want.begin() + i);
        }
      ok = got == want;
    }
    if (!ok) R->fail("not-entropy", what + ": result " + hex(got).substr(0, 120) + " is not the bytes delivered during the call");
    if (entropy_open_fds()) R->fail("descriptor-leak", what + fmt(" left %zu descriptors open", entropy_open_fds()));
    // (a descriptor is gone after close, whatever close returned)
    if (!entropy_error().empty()) R->fail("descriptor", what + ": " + entropy_error());
    R->ev(k, got);
    e = heap_check();
    if (!e.empty()) R->fail("heap", what + ": " + e);
    if (heap_live()) R->fail("leak", what + " left heap blocks");
    buf_free(b);
    buf_free(w);
  }
}
World w_c01() { return {"c01", gen, exec}; }
