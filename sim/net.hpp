// A simulated network and clock: events in the order of simulated time,
// messages lost, duplicated, delayed, reordered, cut by partitions; nodes crash
// and come back. Every decision is a function of the seed and a counter.
#pragma once
#include <queue>
#include "core.hpp"

struct Net {
  struct Ev { u64 t, n; std::function<void()> f; bool operator<(const Ev& o) const { return t != o.t ? t > o.t : n > o.n; } };
  std::priority_queue<Ev> q;
  u64 now = 0, count = 0, msgs = 0, steps = 0, max_steps = 200000;
  u64 seed = 1;
  unsigned loss = 0, dup = 0;
  u64 delay = 100;
  u64 quiet_at = ~0ull;              // after this no more faults
  struct Cut { int node; u64 from, to; };
  std::vector<Cut> cuts;
  std::map<int, u64> boot;           // incarnation of every node; odd: down
  bool up(int n) { return !(boot[n] & 1); }
  void at(u64 t, const std::function<void()>& f) { q.push(Ev{t < now ? now : t, count++, f}); }
  void after(u64 d, const std::function<void()>& f) { at(now + d, f); }
  // run f on node n unless it crashed in between
  void on(int n, u64 d, const std::function<void()>& f) {
    u64 b = boot[n];
    after(d, [this, n, b, f] { if (boot[n] == b) f(); });
  }
  void send(int from, int to, const std::function<void()>& f) {
    Rng r(mix64(seed) ^ mix64(++msgs));
    bool faulty = now < quiet_at;
    for (auto& c : cuts)
      if (faulty && (c.node == from || c.node == to) && now >= c.from && now < c.to) { R->fault("partition_drop"); return; }
    if (faulty && r.chance(loss)) { R->fault("message_lost"); return; }
    int copies = 1;
    if (faulty && r.chance(dup)) { copies = 2; R->fault("message_duplicated"); }
    for (int i = 0; i < copies; i++) {
      u64 d = 1 + r.below(delay);
      if (faulty && r.chance(8)) { d += r.below(delay * 10); R->fault("message_delayed"); }
      at(now + d, [this, to, f] { if (up(to)) f(); else R->fault("message_to_dead_node"); });
    }
  }
  void run() {
    while (!q.empty() && steps < max_steps) {
      Ev e = q.top();
      q.pop();
      now = e.t;
      steps++;
      e.f();
    }
    R->st->sim_us += now;
  }
};
