// Command line of the simulator.
//   sim batch <world> <seed> <start> <count> <max seconds> <out prefix>
//   sim gen <world> <seed> <index>
//   sim replay <plan file> [-v]
// Exit: 0 fine, 3 violation, 5 not deterministic, others: internal errors.
#include <pthread.h>
#include <signal.h>
#include <sys/personality.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include "host.hpp"
#include "ops.hpp"

extern World g_worlds[];
struct Result { bool bad = false, nontrivial = false; Viol v; u64 h = 0; };

static void one(const World& w, const Plan& p, Stats* st, bool verbose, Result& res) {
  libstate_restore();
  arena_reset();
  heap_reset(HeapCfg());
  entropy_reset(EntropyCfg());
  g_poison = PoisonCfg();
  g_seam_yield = nullptr;
  Run run;
  u64 steps0 = st->steps;
  run.st = st;
  run.verbose = verbose;
  R = &run;
  struct itimerval it = {{0, 0}, {strstr(w.name, "long") ? 280 : 60, 0}}, off = {{0, 0}, {0, 0}};
  setitimer(ITIMER_REAL, &it, nullptr);
  struct timespec t0, t1;
  clock_gettime(CLOCK_MONOTONIC, &t0);
  try {
    on_fresh_thread([&] { w.exec(p); });
  } catch (Viol& v) {
    res.bad = true;
    res.v = v;
  }
  setitimer(ITIMER_REAL, &off, nullptr);
  clock_gettime(CLOCK_MONOTONIC, &t1);
  if (getenv("SIM_SLOW") && t1.tv_sec - t0.tv_sec + (t1.tv_nsec - t0.tv_nsec) * 1e-9 > atof(getenv("SIM_SLOW"))) fprintf(stderr, "slow: %s, a run of %.1f s\n", w.name, t1.tv_sec - t0.tv_sec + (t1.tv_nsec - t0.tv_nsec) * 1e-9);
  res.h = run.h;
  res.nontrivial = run.nfaults > 0 || st->steps > steps0 + 1;
  st->inter.insert(run.sched);
  R = nullptr;
}
static const World* find(const std::string& n) {
  for (World* w = g_worlds; w->name; w++) if (n == w->name) return w;
  fprintf(stderr, "sim: no world %s\n", n.c_str());
  exit(97);
}
u64 g_run_index;
static Plan gen(const World& w, u64 seed, u64 i) {
  g_run_index = i;
  Rng r(mix64(mix64(seed ^ 0x51ed) + mix64(hash_str(w.name)) * 3 + i * 0x9e3779b97f4a7c15ull));
  return w.gen(r);
}
static void dump(const std::string& path, const std::unordered_set<u64>& s) {
  FILE* f = fopen(path.c_str(), "wb");
  if (!f) return;
  for (u64 x : s) fwrite(&x, 8, 1, f);
  fclose(f);
}
static std::string esc(const std::string& s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; o += (c < 32 ? ' ' : c); } return o; }
static std::string jmap(const std::map<std::string, u64>& m) {
  std::string s = "{";
  for (auto& p : m) s += (s.size() > 1 ? "," : "") + ("\"" + esc(p.first) + "\":" + std::to_string(p.second));
  return s + "}";
}
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

int main(int argc, char** argv) {
  if (!getenv("SIM_NOREEXEC")) {
    setenv("SIM_NOREEXEC", "1", 1);
    if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  if (argc < 3) return 98;
  setvbuf(stdout, nullptr, _IOLBF, 0);
  arena_init();
  libstate_snapshot();
  host_signals_init();
  std::string cmd = argv[1];
  if (cmd == "gen" && argc >= 5) {
    const World* w = find(argv[2]);
    printf("world %s\n%s", w->name, plan_text(gen(*w, strtoull(argv[3], 0, 10), strtoull(argv[4], 0, 10))).c_str());
    return 0;
  }
  if (cmd == "replay") {
    FILE* f = fopen(argv[2], "rb");
    if (!f) return 99;
    std::string t;
    char b[65536];
    size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0) t.append(b, n);
    fclose(f);
    Plan p = plan_parse(t);
    if (p.empty() || p[0].verb != "world") {
      // "world NAME" parses as verb "world" without keys: take the name from the text
      fprintf(stderr, "sim: no world line\n");
      return 99;
    }
    std::string name;
    for (auto& l : split(t, '\n')) if (l.compare(0, 6, "world ") == 0) { name = l.substr(6); break; }
    p.erase(p.begin());
    const World* w = find(name);
    Stats st;
    Result r;
    one(*w, p, &st, argc > 3, r);
    if (r.bad) { printf("VIOL %s %016llx %s\n", r.v.cls.c_str(), (unsigned long long)r.h, r.v.msg.c_str()); return 3; }
    printf("OK %016llx\n", (unsigned long long)r.h);
    return 0;
  }
  if (cmd == "batch" && argc >= 8) {
    const World* w = find(argv[2]);
    u64 seed = strtoull(argv[3], 0, 10), start = strtoull(argv[4], 0, 10), count = strtoull(argv[5], 0, 10);
    double lim = atof(argv[6]), t0 = now();
    std::string pre = argv[7];
    Stats st;
    u64 done = 0, recheck = 0;
    int rc = 0;
    std::string viol;
    for (u64 i = start; i < start + count; i++) {
      if (now() - t0 > lim) break;
      Plan p = gen(*w, seed, i);
      FILE* cur = fopen((pre + ".cur").c_str(), "wb");
      if (cur) { fprintf(cur, "world %s\n%s", w->name, plan_text(p).c_str()); fclose(cur); }
      Result r;
      one(*w, p, &st, false, r);
      if (r.nontrivial) st.distinct.insert(r.h);
      done++;
      if (r.bad) {
        viol = r.v.cls + "\t" + r.v.msg;
        printf("VIOL %llu %s %016llx %s\n", (unsigned long long)i, r.v.cls.c_str(), (unsigned long long)r.h, r.v.msg.c_str());
        rc = 3;
        break;
      }
      if (i % 32 == 0 && !strstr(w->name, "long")) {
        Stats dummy;
        Result r2;
        one(*w, p, &dummy, false, r2);
        recheck++;
        if (r2.bad || r2.h != r.h) { printf("NONDET %llu %016llx %016llx %s\n", (unsigned long long)i, (unsigned long long)r.h, (unsigned long long)r2.h, r2.v.msg.c_str()); rc = 5; break; }
      }
    }
    dump(pre + ".distinct", st.distinct);
    dump(pre + ".inter", st.inter);
    FILE* f = fopen((pre + ".json").c_str(), "wb");
    fprintf(f, "{\"runs\":%llu,\"rechecked\":%llu,\"steps\":%llu,\"sim_us\":%llu,\"seconds\":%.3f,\"rc\":%d,\"faults\":%s,\"probes\":%s,\"ops\":%s,\"viol\":\"%s\"}\n",
            (unsigned long long)done, (unsigned long long)recheck, (unsigned long long)st.steps, (unsigned long long)st.sim_us, now() - t0, rc, jmap(st.faults).c_str(), jmap(st.probes).c_str(), jmap(st.ops).c_str(), esc(viol).c_str());
    fclose(f);
    return rc;
  }
  return 98;
}
