// C02: calls of several threads, interleaved by the simulator at the level of
// single accesses (and instructions), give what each of them gives alone.
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <unistd.h>
#include <algorithm>
#include "conc.hpp"
using std::string;

struct Switch { int kind; u64 at; u64 st, to; };  // kind 0 any 1 hot; at: absolute
struct Task {
  int id = 0;
  std::vector<Item> items;
  std::vector<Outcome1> alone;
  u64 nany = 0, nhot = 0;
  std::vector<Switch> sw[2];
  size_t pos[2] = {0, 0};
  bool pending = false;
  u64 pending_to = 0;
  Ctl ctl;
  sem_t sem;
  bool done = false;
  u64 quantum = 0;
  string log;
};
static std::vector<Task*> g_tasks;
static sem_t g_main;
static u64 g_switches;
static Task* next_task(Task* me, u64 salt) {
  std::vector<Task*> v;
  for (auto t : g_tasks) if (t != me && !t->done) v.push_back(t);
  return v.empty() ? nullptr : v[salt % v.size()];
}
static void give(Task* me, u64 salt, const char* why) {
  Task* t = next_task(me, salt);
  if (!t) return;
  g_switches++;
  R->order(fmt("%d>%d %s %llu", me->id, t->id, why, (unsigned long long)me->ctl.any));
  R->ev(fmt("%d>%d %s at access %llu, shared %llu", me->id, t->id, why, (unsigned long long)me->ctl.any, (unsigned long long)me->ctl.hot));
  R->fault(string("switch_") + why);
  sem_post(&t->sem);
  while (sem_wait(&me->sem)) {}
}
static void arm_next(Task* t) {
  t->ctl.next_any = t->pos[0] < t->sw[0].size() ? t->sw[0][t->pos[0]].at : ~0ull;
  t->ctl.next_hot = t->pos[1] < t->sw[1].size() ? t->sw[1][t->pos[1]].at : ~0ull;
}
static void on_point(Ctl* c, const char* why) {
  Task* t = (Task*)c->user;
  if (!strcmp(why, "budget")) guard_exit(OC_STUCK, 0, nullptr);
  if (!strcmp(why, "lock") || !strcmp(why, "spin")) { give(t, t->quantum++, why); return; }
  bool go = t->pending;
  u64 to = t->pending_to;
  t->pending = false;
  const char* w = go ? "step" : why;
  for (int k = 0; k < 2; k++) {
    u64 n = k ? c->hot : c->any;
    while (t->pos[k] < t->sw[k].size() && t->sw[k][t->pos[k]].at <= n) {
      Switch& s = t->sw[k][t->pos[k]++];
      if (s.st) { t->pending = true; t->pending_to = s.to; c->step = s.st; }
      else { go = true; to = s.to; }
    }
  }
  arm_next(t);
  if (go) { if (t->pending) { t->pending = false; c->step = 0; } give(t, to, w); }
}
static void* task_main(void* a) {
  Task* t = (Task*)a;
  host_thread_signals(1 + t->id);
  sigset_t m;
  sigemptyset(&m);
  sigaddset(&m, SIGALRM);
  pthread_sigmask(SIG_BLOCK, &m, nullptr);
  while (sem_wait(&t->sem)) {}
  g_ctl = &t->ctl;
  for (auto& it : t->items) {
    it.g = guarded([&] { t->ctl.on = true; it.ret = item_exec(it); t->ctl.on = false; });
    t->ctl.on = false;
    t->ctl.step = 0;
  }
  g_ctl = nullptr;
  t->done = true;
  Task* n = next_task(t, t->id);
  sem_post(n ? &n->sem : &g_main);
  return nullptr;
}
static u64 ppm(u64 p, u64 n) { return 1 + (u64)((unsigned __int128)p * n / 1000000); }

static Plan gen(Rng& r) {
  Plan p;
  Pool pool = make_pool(r, (int)r.range(1, 3), false);
  unsigned kinds = r.chance(25) ? 127 : 1u << r.below(7);
  int nt = r.chance(65) ? 2 : (int)r.range(3, 4);
  bool share = r.chance(35);
  if (share) p.push_back(Line("share"));
  if (r.chance(25)) { string s; for (u64 k = r.range(1, 12); k; k--) s += (s.empty() ? "" : ",") + (r.chance(70) ? fmt("s:%u", (unsigned)r.range(1, 40)) : string("EINTR")); p.push_back(Line("ent").set("read", s)); }
  std::vector<Line> proto;
  for (u64 k = r.range(1, 3); k; k--) proto.push_back(gen_item(r, pool, kinds));
  int style = (int)r.below(3);  // the same call everywhere, the same operation with other data, anything
  for (int t = 0; t < nt; t++) {
    for (u64 k = r.range(1, r.chance(70) ? 1 : 3); k; k--) {
      Line l = proto[r.below(proto.size())];
      if (style == 2) l = gen_item(r, pool, kinds);
      if (style == 1)
        for (auto& e : l.kv) {
          if (e.second.compare(0, 2, "r:") == 0) { auto q = split(e.second, ':'); auto tail = q.size() > 2 ? q[2] : "32"; e.second = fmt("r:%llx:", (unsigned long long)r.below(1 << 20)) + tail; }
          if (e.first == "dev") e.second = std::to_string(r.below(1000));
        }
      l.set("t", (u64)t).set("pl", r.below(50));
      p.push_back(l);
    }
  }
  for (int t = 0; t < nt; t++) {
    u64 mode = r.below(10), n = mode < 5 ? r.range(0, 3) : mode < 8 ? r.range(1, 8) : r.range(5, 40);
    if (t == 0 && !n) n = 1;
    for (u64 k = 0; k < n; k++) {
      Line l("sw");
      l.set("t", (u64)t);
      u64 c = r.below(10);
      if (c < 4) l.set("any", r.below(1000000));
      else if (c < 8) l.set("hot", r.below(1000000));
      else l.set("n", r.range(1, r.chance(70) ? 6 : 40));
      if (r.chance(25)) l.set("st", r.range(1, r.chance(60) ? 30 : 400));
      if (nt > 2) l.set("to", r.below(3));
      p.push_back(l);
    }
  }
  return p;
}
static void exec(const Plan& p) {
  std::vector<Task> tasks(4);
  bool share = false;
  EntropyCfg ec;
  ec.max_calls = 2000000;
  shared_clear();
  size_t total = 0;
  for (auto& l : p) {
    if (l.verb == "share") share = true;
    else if (l.verb == "ent") { for (auto& w : split(l.get("read"), ',')) if (!w.empty()) ec.read_script.push_back(w); }
    else if (l.verb == "item") {
      Item it;
      if (!item_make(it, l) || ++total > 9) continue;
      tasks[l.num("t") % 4].items.push_back(it);
    }
  }
  g_tls_hot = false;
  // alone, each from a fresh state of the library, on the thread's own stack
  u64 whole = 0;
  for (int i = 0; i < 4; i++) {
    Task& t = tasks[i];
    t.id = i;
    for (auto& it : t.items) {
      libstate_restore();
      EntropyCfg e0;
      e0.max_calls = 2000000;
      entropy_reset(e0);
      item_put(it, nullptr);
      Ctl c;
      conc_arm();
      on_fresh_thread([&] {
        g_ctl = &c;
        it.g = guarded([&] { c.on = true; it.ret = item_exec(it); c.on = false; });
        c.on = false;
        g_ctl = nullptr;
      }, 1 + i);
      conc_disarm();
      t.alone.push_back(item_outcome(it));
      item_release(it);
      t.nany += c.any;
      t.nhot += c.hot;
      if (t.alone.back().g.oc != OC_OK) { R->probe("call_fails_alone"); R->ev("fails alone: " + it.name); return; }
      if (R->verbose) fprintf(stderr, "  alone %d %s: %llu accesses, %llu shared\n", i, it.name.c_str(), (unsigned long long)c.any, (unsigned long long)c.hot);
    }
    whole += t.nany;
  }
  for (auto& l : p) {
    if (l.verb != "sw") continue;
    Task& t = tasks[l.num("t") % 4];
    Switch s{0, 0, l.num("st"), l.num("to")};
    if (l.has("any")) s.at = ppm(l.num("any"), t.nany);
    else if (l.has("hot")) { s.kind = t.nhot ? 1 : 0; s.at = ppm(l.num("hot"), t.nhot ? t.nhot : t.nany); }
    else { s.kind = 1; s.at = std::max<u64>(1, l.num("n", 1)); }
    t.sw[s.kind].push_back(s);
  }
  libstate_restore();
  HeapCfg hc;
  heap_reset(hc);
  entropy_reset(ec);
  Shared sh;
  g_tasks.clear();
  for (auto& t : tasks) if (!t.items.empty()) g_tasks.push_back(&t);
  if (g_tasks.empty()) return;
  for (auto t : g_tasks) {
    for (auto& it : t->items) item_put(it, share ? &sh : nullptr);
    for (auto& v : t->sw) std::stable_sort(v.begin(), v.end(), [](const Switch& a, const Switch& b) { return a.at < b.at; });
    t->ctl.user = t;
    t->ctl.point = on_point;
    t->ctl.budget = 20 * whole + 50000000;
    arm_next(t);
    sem_init(&t->sem, 0, 0);
  }
  std::map<string, Bytes> before;
  for (auto& s : sh) before[s.first] = Bytes(s.second.p, s.second.p + s.second.len);
  if (share) R->probe("shared_inputs");
  sem_init(&g_main, 0, 0);
  g_switches = 0;
  std::vector<pthread_t> th;
  for (auto t : g_tasks) {
    pthread_attr_t at;
    pthread_attr_init(&at);
    size_t sz;
    void* st = stack_for(1 + t->id, &sz);
    madvise(st, sz, MADV_DONTNEED);
    pthread_attr_setstack(&at, st, sz);
    pthread_t h;
    if (pthread_create(&h, &at, task_main, t)) _exit(95);
    th.push_back(h);
    pthread_attr_destroy(&at);
  }
  conc_arm();
  sem_post(&g_tasks[0]->sem);
  while (sem_wait(&g_main)) {}
  for (auto h : th) pthread_join(h, nullptr);
  conc_disarm();
  if (conc_traps()) R->probe("static_data_accessed");
  string err, cls;
  for (auto t : g_tasks) {
    for (size_t i = 0; i < t->items.size(); i++) {
      Item& it = t->items[i];
      Outcome1 o = item_outcome(it);
      string d = outcome_diff(it, o, t->alone[i]);
      R->ev(fmt("task %d call %zu ", t->id, i) + it.name + fmt(" -> %llu", (unsigned long long)o.ret), o.out.empty() ? Bytes() : o.out[0]);
      R->st->ops[it.name]++;
      if (!d.empty() && err.empty()) { cls = "interference:" + it.name; err = fmt("task %d, call %zu: ", t->id, i) + it.name + " " + d + " (which is what it gives alone) [" + it.text.substr(0, 300) + "]"; }
    }
    R->st->steps += t->ctl.any;
  }
  for (auto& s : sh) if (err.empty() && memcmp(s.second.p, before[s.first].data(), before[s.first].size())) { cls = "shared-input-changed"; err = "a shared input was changed"; }
  if (err.empty() && !heap_check().empty()) { cls = "heap"; err = heap_check(); }
  R->ev(fmt("%llu switches", (unsigned long long)g_switches));
  for (auto t : g_tasks) { for (auto& it : t->items) item_release(it); sem_destroy(&t->sem); }
  for (auto& s : sh) buf_free(s.second);
  g_tasks.clear();
  if (!err.empty()) R->fail(cls, err);
}
World w_c02() { return {"c02", gen, exec}; }
