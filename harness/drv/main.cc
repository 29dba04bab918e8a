// Whole runs of the drivers: the same particles on any number of processes, in any order of messages.
#include "drv.h"
using namespace mc;
#include "phys_sets.h"
#include "alone.h"
static void sums(Ctx & c, const Setup & S, const vector<Snap> & v) {
  for(size_t k = 0; k < v.size(); ++k) {
    auto & s = v[k];
    double m = 0, m0 = 0, p[3] = {0, 0, 0}, p0[3] = {0, 0, 0}, sc = 0;
    const char * vn[] = {"vx", "vy", "vz"};
    auto tot = [&](const Snap & q, double & mm, double * pp) { for(size_t i = 0; i < q.n; ++i) { double w = q.col.at("m")[i]; mm += w; for(int d = 0; d < 3; ++d) { pp[d] += w * q.col.at(vn[d])[i]; sc = std::max(sc, w * std::abs(q.col.at(vn[d])[i])); } } };
    tot(v[0], m0, p0); tot(s, m, p);
    c.check(m == m0 || std::abs(m - m0) < 1e-14 * m0, "mass", fmt("%.17g, at first %.17g", m, m0));
    if(S.free) for(int d = 0; d < 3; ++d) c.check(std::abs(p[d] - p0[d]) <= 1e-10 * (sc + 1e-3) * s.n, "momentum", fmt("iteration %ld component %d: %.15g, at first %.15g", s.it, d, p[d], p0[d]));
  }
}
static void enumerate(Ctx & c) {
  th::scratch();
  bool T = c.thorough;
  auto all = setups(T);
  for(auto & S : all) {
    if(!c.want([&] { return S.name; })) continue;
    auto & L = th::RankLibs<drv_entry_t>::get(S.tag, "drv_entry");
    for(int i = 0; i < 5; ++i) L.fn[i];
    Out r = alone(c, S, 0, 1, sched(1));
    if(!c.check(r.ok, "run", "one process: " + r.err)) continue;
    if(!c.check(r.snap.size() == S.nsnap, "snapshots", fmt("%zu of %zu", r.snap.size(), S.nsnap))) continue;
    sums(c, S, r.snap);
    for(int np = 1; np <= (T ? 5 : 4); ++np) for(int k = 0; k < (np == 1 ? 1 : T ? 8 : 3); ++k) for(int ord = 0; ord < (T ? 4 : 2); ++ord) {
      if(np == 1 && !ord) continue;
      if(!T && S.p.size() > 20 && (ord == 0) != (k == np % 3)) continue;
      Out o = alone(c, S, ord, np, sched(np, k));
      string w = fmt("%d processes schedule %d order %d", np, k, ord);
      if(!c.check(o.ok, "run", w + ": " + o.err)) continue;
      if(!c.check(o.snap.size() == r.snap.size(), "snapshots", w + fmt(": %zu, other %zu", o.snap.size(), r.snap.size()))) continue;
      uint64_t h = np;
      for(size_t i = 0; i < r.snap.size(); ++i) { if(!same(c, r.snap[i], o.snap[i], w, 1e-9)) break; for(auto & q : o.snap[i].col) for(double d : q.second) h = hd(h, d); }
      c.outcome(h);
    }
  }
  // one message or process ahead of its turn, at every stride-th choice of the run
  size_t ns = 0;
  for(auto & S : all) for(int np = 2; np <= (T ? 4 : 3); ++np) for(int k = 0; k < (T ? 4 : 2); ++k) {
    ++ns;
    if(!T && ns % (S.p.size() > 20 ? 13 : 7)) continue;
    int parts = T ? 8 : 1;
    for(int part = 0; part < parts; ++part) {
      if(!c.want([&] { return S.name + fmt(", %d processes, base %d, deviations part %d", np, k, part); })) continue;
      auto & L = th::RankLibs<drv_entry_t>::get(S.tag, "drv_entry");
      for(int i = 0; i < 5; ++i) L.fn[i];
      Out r = alone(c, S, 0, np, sched(np, k * 2));
      if(!c.check(r.ok, "run", r.err)) continue;
      size_t stride = std::max<size_t>(1, r.nopt.size() / (T ? 240 : 12)) | 1;
      for(size_t i = part * stride + ns % stride; i < r.nopt.size(); i += stride * parts) for(uint32_t o = 1; o < r.nopt[i]; ++o) {
        auto sc = sched(np, k * 2);
        sc.dev.push_back({(uint32_t)i, o});
        c.where(sc.str());
        if(c.replaying && c.replay_sub.size() && c.replay_sub != sc.str()) continue;
        Out z = alone(c, S, 0, np, sc);
        string w = fmt("%d processes, schedule %s", np, sc.str().c_str());
        if(!c.check(z.ok, "run", w + ": " + z.err)) break;
        if(!c.check(z.snap.size() == r.snap.size(), "snapshots", w + fmt(": %zu, other %zu", z.snap.size(), r.snap.size()))) break;
        for(size_t j = 0; j < r.snap.size(); ++j) if(!same(c, r.snap[j], z.snap[j], w, 1e-9)) break;
        if(c.fails) break;
      }
    }
  }
}
int main(int argc, char ** argv) { return mc::main_run(argc, argv, enumerate, 1); }
