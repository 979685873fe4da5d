// C03: calls interrupted at any instant by other complete calls on the same
// thread (as a signal handler would make them), or abandoned there for good.
#include <unistd.h>
#include <algorithm>
#include "conc.hpp"
using std::string;

void conc_settle();
struct Cut { int kind; u64 at, st; int node; bool quit, all; };  // kind 0 any 1 hot
struct Node {
  int id = 0, in = -1;
  Item it;
  Outcome1 alone;
  u64 nany = 0, nhot = 0;
  std::vector<Cut> cut[2];
  size_t pos[2] = {0, 0};
  std::vector<Cut> due;        // waiting for their instructions to pass
  Ctl ctl;
  bool ran = false, abandoned = false;
  int depth = 0;
  u64 inside = 0;              // calls made inside this one
};
static std::vector<Node*> g_node;
static bool g_quit_all;
static string g_err, g_cls;
static void run_node(Node* n, int depth);
static void arm_next(Node* t) {
  t->ctl.next_any = t->pos[0] < t->cut[0].size() ? t->cut[0][t->pos[0]].at : ~0ull;
  t->ctl.next_hot = t->pos[1] < t->cut[1].size() ? t->cut[1][t->pos[1]].at : ~0ull;
}
static void act(Node* n, const Cut& c, const char* why) {
  if (c.quit) {
    R->order(fmt("%d quit %s %llu", n->id, why, (unsigned long long)n->ctl.any));
    R->ev(fmt("call %d is abandoned at access %llu, shared %llu", n->id, (unsigned long long)n->ctl.any, (unsigned long long)n->ctl.hot));
    R->fault(string("abandon_") + why);
    if (n->depth) R->fault("abandon_nested");
    g_quit_all = c.all;
    n->ctl.on = false;
    guard_exit(OC_ABANDON, 0, nullptr);
  }
  Node* m = g_node[c.node];
  if (m->ran || n->depth >= 3) return;
  R->order(fmt("%d in %d %s %llu", m->id, n->id, why, (unsigned long long)n->ctl.any));
  R->ev(fmt("call %d runs inside call %d at access %llu, shared %llu", m->id, n->id, (unsigned long long)n->ctl.any, (unsigned long long)n->ctl.hot));
  R->fault(string("interrupt_") + why);
  if (n->depth) R->fault("interrupt_nested");
  n->inside++;
  n->ctl.on = false;
  run_node(m, n->depth + 1);
  if (g_quit_all) { n->abandoned = true; guard_exit(OC_ABANDON, 0, nullptr); }
  n->ctl.on = true;
}
static void on_point(Ctl* c, const char* why) {
  Node* n = (Node*)c->user;
  if (!strcmp(why, "budget") || !strcmp(why, "lock")) { n->ctl.on = false; guard_exit(OC_STUCK, 0, nullptr); }
  if (!strcmp(why, "spin")) return;
  std::vector<std::pair<Cut, const char*>> now;
  if (!strcmp(why, "step")) { for (auto& x : n->due) now.push_back({x, why}); n->due.clear(); }
  for (int k = 0; k < 2; k++) {
    u64 v = k ? c->hot : c->any;
    while (n->pos[k] < n->cut[k].size() && n->cut[k][n->pos[k]].at <= v) {
      Cut x = n->cut[k][n->pos[k]++];
      if (x.st) n->due.push_back(x);
      else now.push_back({x, k ? "hot" : "any"});
    }
  }
  arm_next(n);
  for (auto& x : now) act(n, x.first, x.second);
  if (!n->due.empty()) c->step = n->due[0].st;
}
static void run_node(Node* n, int depth) {
  Ctl* wasc = g_ctl;
  Rng* wasr = g_edel_rng;
  n->ran = true;
  n->depth = depth;
  n->ctl.user = n;
  n->ctl.point = on_point;
  arm_next(n);
  g_ctl = &n->ctl;
  n->it.g = guarded([&] { n->ctl.on = true; n->it.ret = item_exec(n->it); n->ctl.on = false; });
  n->ctl.on = false;
  n->ctl.step = 0;
  g_ctl = wasc;
  g_edel_rng = wasr;
  if (n->it.g.oc != OC_OK) conc_settle();
  if (n->it.g.oc == OC_ABANDON) { n->abandoned = true; if (!depth) g_quit_all = false; }
  R->st->steps += n->ctl.any;
  R->st->ops[n->it.name]++;
  if (n->abandoned) return;
  Outcome1 o = item_outcome(n->it);
  string d = outcome_diff(n->it, o, n->alone);
  R->ev(fmt("call %d ", n->id) + n->it.name + fmt(" -> %llu", (unsigned long long)o.ret), o.out.empty() ? Bytes() : o.out[0]);
  if (n->inside) R->probe("interrupted_call_finished");
  if (depth) R->probe("call_inside_finished");
  for (auto m : g_node) if (m->abandoned) { R->probe("call_after_abandonment_finished"); break; }
  if (!d.empty() && g_err.empty()) {
    string how = depth ? "made inside an interrupted call" : n->inside ? "interrupted by other calls" : "made after interruptions";
    for (auto m : g_node) if (m->abandoned) { how += ", after an abandoned call"; break; }
    g_cls = "interference:" + n->it.name;
    g_err = fmt("call %d, ", n->id) + how + ": " + n->it.name + " " + d + " (which is what it gives alone) [" + n->it.text.substr(0, 300) + "]";
  }
}
static u64 ppm(u64 p, u64 n) { return 1 + (u64)((unsigned __int128)p * n / 1000000); }

static void at(Rng& r, Line& l) {
  u64 c = r.below(10);
  if (c < 4) l.set("any", r.below(1000000));
  else if (c < 8) l.set("hot", r.below(1000000));
  else l.set("n", r.range(1, r.chance(70) ? 6 : 40));
  if (r.chance(25)) l.set("st", r.range(1, r.chance(60) ? 30 : r.chance(80) ? 400 : 9000));
}
static Plan gen(Rng& r) {
  Plan p;
  Pool pool = make_pool(r, (int)r.range(1, 3), false);
  unsigned kinds = r.chance(25) ? 127 : 1u << r.below(7);
  if (r.chance(35)) p.push_back(Line("share"));
  if (r.chance(25)) { string s; for (u64 k = r.range(1, 12); k; k--) s += (s.empty() ? "" : ",") + (r.chance(70) ? fmt("s:%u", (unsigned)r.range(1, 40)) : string("EINTR")); p.push_back(Line("ent").set("read", s)); }
  std::vector<Line> proto;
  for (u64 k = r.range(1, 3); k; k--) proto.push_back(gen_item(r, pool, kinds));
  int style = (int)r.below(3);
  auto one = [&]() {
    Line l = style == 2 ? gen_item(r, pool, kinds) : proto[r.below(proto.size())];
    if (style == 1)
      for (auto& e : l.kv) {
        if (e.second.compare(0, 2, "r:") == 0) { auto q = split(e.second, ':'); auto tail = q.size() > 2 ? q[2] : "32"; e.second = fmt("r:%llx:", (unsigned long long)r.below(1 << 20)) + tail; }
        if (e.first == "dev") e.second = std::to_string(r.below(1000));
      }
    l.set("pl", r.below(50));
    return l;
  };
  int nout = (int)r.range(1, 3), id = 0;
  bool quits = r.chance(60);
  if (quits && nout < 2) nout = 2;
  std::vector<int> all;
  for (int i = 0; i < nout; i++) {
    int me = id++;
    p.push_back(one().set("id", (u64)me));
    std::vector<int> fam{me};
    u64 n = r.chance(quits ? 40 : 75) ? r.range(1, r.chance(70) ? 1 : 3) : 0;
    for (u64 k = 0; k < n; k++) {
      int in = r.chance(75) ? me : fam[r.below(fam.size())];
      Line l = one();
      l.verb = "nest";
      l.set("id", (u64)id).set("in", (u64)in);
      at(r, l);
      fam.push_back(id++);
      p.push_back(l);
    }
    if (quits && (i + 1 < nout || n) && r.chance(70)) {
      Line l("quit");
      int who = n && r.chance(50) ? fam.back() : me;
      if (who == me && i + 1 == nout) continue;
      l.set("in", (u64)who);
      at(r, l);
      if (who != me && r.chance(50)) l.set("all", 1);
      p.push_back(l);
    }
  }
  return p;
}
static void exec(const Plan& p) {
  bool share = false;
  EntropyCfg ec;
  ec.max_calls = 2000000;
  shared_clear();
  std::vector<std::unique_ptr<Node>> own;
  g_node.clear();
  g_quit_all = false;
  g_err.clear();
  std::map<int, int> byid;
  for (auto& l : p) {
    if (l.verb == "share") share = true;
    else if (l.verb == "ent") { for (auto& w : split(l.get("read"), ',')) if (!w.empty()) ec.read_script.push_back(w); }
    else if (l.verb == "item" || l.verb == "nest") {
      if (own.size() >= 10) continue;
      std::unique_ptr<Node> n(new Node);
      Line k = l;
      for (auto it = k.kv.begin(); it != k.kv.end();) { if (l.verb == "nest" && (it->first == "in" || it->first == "any" || it->first == "hot" || it->first == "n" || it->first == "st")) it = k.kv.erase(it); else ++it; }
      if (!item_make(n->it, k)) continue;
      n->id = (int)l.num("id");
      n->in = l.verb == "nest" ? (int)l.num("in") : -1;
      if (byid.count(n->id)) continue;
      if (n->in >= 0 && !byid.count(n->in)) continue;
      byid[n->id] = (int)own.size();
      g_node.push_back(n.get());
      own.push_back(std::move(n));
    }
  }
  if (own.empty()) return;
  g_tls_hot = true;
  u64 whole = 0;
  std::map<string, Node*> seen;
  for (auto n : g_node) {
    string key = n->it.text + fmt("|%llu|%llu", (unsigned long long)n->it.devseed, (unsigned long long)n->it.l.num("pl"));
    if (seen.count(key)) { Node* m = seen[key]; n->alone = m->alone; n->nany = m->nany; n->nhot = m->nhot; whole += n->nany; continue; }
    seen[key] = n;
    libstate_restore();
    EntropyCfg e0;
    e0.max_calls = 2000000;
    entropy_reset(e0);
    item_put(n->it, nullptr);
    Ctl c;
    conc_arm();
    on_fresh_thread([&] {
      g_ctl = &c;
      n->it.g = guarded([&] { c.on = true; n->it.ret = item_exec(n->it); c.on = false; });
      c.on = false;
      g_ctl = nullptr;
    }, 1);
    conc_disarm();
    n->alone = item_outcome(n->it);
    item_release(n->it);
    n->nany = c.any;
    n->nhot = c.hot;
    whole += n->nany;
    if (n->alone.g.oc != OC_OK) { R->probe("call_fails_alone"); R->ev("fails alone: " + n->it.name); return; }
    if (R->verbose) fprintf(stderr, "  alone %d %s: %llu accesses, %llu shared\n", n->id, n->it.name.c_str(), (unsigned long long)c.any, (unsigned long long)c.hot);
  }
  for (auto& l : p) {
    bool q = l.verb == "quit";
    if ((!q && l.verb != "nest") || !byid.count((int)l.num("in"))) continue;
    if (!q && !byid.count((int)l.num("id"))) continue;
    Node* host = g_node[byid[(int)l.num("in")]];
    Cut c{0, 0, l.num("st"), q ? -1 : byid[(int)l.num("id")], q, l.num("all") != 0};
    if (!q && g_node[c.node]->in != host->id) continue;
    if (l.has("any")) c.at = ppm(l.num("any"), host->nany);
    else if (l.has("hot")) { c.kind = host->nhot ? 1 : 0; c.at = ppm(l.num("hot"), host->nhot ? host->nhot : host->nany); }
    else { c.kind = 1; c.at = std::max<u64>(1, l.num("n", 1)); }
    host->cut[c.kind].push_back(c);
  }
  libstate_restore();
  HeapCfg hc;
  heap_reset(hc);
  entropy_reset(ec);
  Shared sh;
  for (auto n : g_node) {
    item_put(n->it, share ? &sh : nullptr);
    n->ctl.budget = 20 * whole + 50000000;
    for (auto& v : n->cut) std::stable_sort(v.begin(), v.end(), [](const Cut& a, const Cut& b) { return a.at < b.at; });
  }
  std::map<string, Bytes> before;
  for (auto& s : sh) before[s.first] = Bytes(s.second.p, s.second.p + s.second.len);
  if (share) R->probe("shared_inputs");
  conc_arm();
  on_fresh_thread([&] { for (auto n : g_node) if (n->in < 0) run_node(n, 0); }, 1);
  conc_disarm();
  if (conc_traps()) R->probe("static_data_accessed");
  bool quit = false;
  for (auto n : g_node) quit |= n->abandoned;
  for (auto& s : sh)
    if (g_err.empty() && !quit && memcmp(s.second.p, before[s.first].data(), before[s.first].size())) { g_cls = "shared-input-changed"; g_err = "a shared input was changed"; }
  if (g_err.empty() && !quit && !heap_check().empty()) { g_cls = "heap"; g_err = heap_check(); }
  for (auto n : g_node) item_release(n->it);
  for (auto& s : sh) buf_free(s.second);
  g_node.clear();
  if (!g_err.empty()) R->fail(g_cls, g_err);
}
World w_c03() { return {"c03", gen, exec}; }
