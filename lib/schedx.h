// Systematic schedule exploration on top of simmpi: all base policies (rank
// priorities x buffered/synchronous sends), then every set of at most D
// deviations from each of them.
#pragma once
#include "mc.h"
#include "sim.h"
#include <algorithm>

namespace schedx {
struct Opt {
  int dev = 0;          // maximum number of deviations
  bool all_prio = true; // all rank priority permutations (else identity, reverse)
  bool both_send = true;
  bool rr = true;
  uint64_t max_exec = ~0ull; // cap per case; reaching it is reported as truncated
};
struct Stat { uint64_t execs = 0; bool truncated = false; };

// body(rank) runs the implementation; post(result) is the oracle over what the
// ranks left behind, returns hash of the outcome.
inline Stat explore(mc::Ctx & c, int n, const Opt & o, const std::function<void()> & prepare,
  const std::function<void(int)> & body, const std::function<uint64_t()> & post) {
  Stat st;
  uint64_t f0 = c.fails;
  uint64_t casesalt = 0;
  std::function<void(uint64_t)> sink = [&](uint64_t h) { c.state(mc::mix(h, casesalt)); };
  auto one = [&](const sim::Sched & s, sim::Result & r) {
    c.where(s.str());
    c.alive();
    prepare();
    r = sim::run(n, s, body, sink);
    ++st.execs;
    c.exec();
    c.steps(r.steps);
    if(!r.ok) { c.fail(r.key, r.msg + " [schedule " + s.str() + "]"); return false; }
    uint64_t h = post();
    c.outcome(h);
    return c.fails == f0;
  };
  if(c.replaying && c.replay_sub.size()) {
    sim::Result r;
    one(sim::Sched::parse(c.replay_sub), r);
    return st;
  }
  std::vector<std::vector<int>> prios;
  std::vector<int> p(n);
  for(int i = 0; i < n; ++i) p[i] = i;
  if(o.all_prio && n <= 4) do prios.push_back(p); while(std::next_permutation(p.begin(), p.end()));
  else {
    prios.push_back(p);
    auto q = p; std::reverse(q.begin(), q.end());
    if(n > 1) prios.push_back(q);
    if(o.all_prio) for(int k = 1; k + 1 < n; ++k) { auto z = p; std::rotate(z.begin(), z.begin() + k, z.end()); prios.push_back(z); }
  }
  std::vector<sim::Sched> bases;
  for(int rv = 0; rv < (o.both_send && n > 1 ? 2 : 1); ++rv) {
    for(auto & q : prios) { sim::Sched s; s.prio = q; s.rendezvous = rv; bases.push_back(s); }
    if(o.rr && n > 1) { sim::Sched s; s.prio = prios[0]; s.rendezvous = rv; s.rr = true; bases.push_back(s); }
  }
  for(auto & b : bases) {
    // depth-first over deviation sets in increasing choice index
    std::function<bool(const sim::Sched &, int)> rec = [&](const sim::Sched & s, int left) {
      if(st.execs >= o.max_exec || mc::now() > c.t_end) { st.truncated = true; return true; }
      sim::Result r;
      if(!one(s, r)) return false;
      if(left == 0) return true;
      uint32_t from = s.dev.empty() ? 0 : s.dev.back().first + 1;
      for(uint32_t i = from; i < r.nopt.size(); ++i)
        for(uint32_t k = 1; k < r.nopt[i]; ++k) {
          sim::Sched t = s;
          t.dev.push_back({i, k});
          if(!rec(t, left - 1)) return false;
          if(st.truncated) return true;
        }
      return true;
    };
    if(!rec(b, o.dev)) break;
    if(st.truncated) break;
  }
  return st;
}
} // namespace schedx
