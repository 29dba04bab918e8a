// Whole runs of the drivers: every reported row against the snapshot of the same iteration.
#include "../drv/drv.h"
using namespace mc;
#include "../drv/phys_sets.h"
#include "../drv/alone.h"
struct Sum { double s = 0, a = 0; void operator+=(double x) { s += x; a += std::abs(x); } };
static void enumerate(Ctx & c) {
  th::scratch();
  bool T = c.thorough;
  int no = 0;
  for(auto & S : setups(T)) for(int np = 1; np <= (T ? 6 : 4); ++np) {
    ++no;
    if(!c.want([&] { return fmt("%s on %d processes", S.name.c_str(), np); })) continue;
    auto & L = th::RankLibs<drv_entry_t>::get(S.tag, "drv_entry");
    for(int i = 0; i < np; ++i) L.fn[i];
    Out o = alone(c, S, no % 3, np, sched(np, no % 8));
    if(!c.check(o.ok, "run", o.err)) continue;
    if(!c.check(o.scalar.size() == o.snap.size() && o.diag.size() == o.snap.size() && o.snap.size() == S.nsnap, "rows", fmt("%zu scalar rows, %zu diagnostic rows, %zu snapshots of %zu", o.scalar.size(), o.diag.size(), o.snap.size(), S.nsnap))) continue;
    uint64_t hh = np;
    for(size_t k = 0; k < o.snap.size(); ++k) {
      auto & s = o.snap[k];
      auto &q = o.scalar[k], &g = o.diag[k];
      const char *X[] = {"x", "y", "z"}, *V[] = {"vx", "vy", "vz"};
      Sum m, kin, in, mom[3], ang[3], com[3], cm, h, v;
      double nm = 1e300, nM = 0, nt = 0, hm = 1e300, hM = 0, vm = 1e300, vM = 0;
      for(size_t i = 0; i < s.n; ++i) {
        double x[3], w[3], w2 = 0, mi = s.col.at("m")[i];
        for(int d = 0; d < 3; ++d) x[d] = s.col.at(X[d])[i], w[d] = s.col.at(V[d])[i], w2 += w[d] * w[d];
        double nb = s.col.at("neighbors")[i];
        nm = std::min(nm, nb); nM = std::max(nM, nb); nt += nb;
        if(S.name.find(" h") == S.name.npos) { // the smoothing lengths are those of the search
          int have = 0;
          bool edge = false;
          for(size_t j = 0; j < s.n; ++j) { double r = 0, hh = .5 * (s.col.at("h")[i] + s.col.at("h")[j]); for(int d = 0; d < 3; ++d) { double e = s.col.at(X[d])[i] - s.col.at(X[d])[j]; r += e * e; } r = sqrt(r); have += r <= hh; edge |= std::abs(r / hh - 1) < 1e-9; }
          if(!edge) c.check(nb == have, "neighbours of a particle", fmt("row %zu particle %ld: %g, within reach %d", k, s.id[i], nb, have));
        }
        h += s.col.at("h")[i]; v += sqrt(w2);
        hm = std::min(hm, s.col.at("h")[i]); hM = std::max(hM, s.col.at("h")[i]); vm = std::min(vm, sqrt(w2)); vM = std::max(vM, sqrt(w2));
        cm += mi; for(int d = 0; d < 3; ++d) com[d] += mi * x[d];
        if(s.col.at("type")[i]) continue;
        m += mi; kin += .5 * mi * w2; in += mi * s.col.at("u")[i];
        for(int d = 0; d < 3; ++d) { int a = (d + 1) % 3, b = (d + 2) % 3; mom[d] += mi * w[d]; ang[d] += mi * x[a] * w[b]; ang[d] += -mi * x[b] * w[a]; }
      }
      int D = S.D;
      size_t want = 7 + D + (D == 2 ? 1 : 0) + (D == 3 ? 6 : 0);
      if(!c.check(q.size() == want && g.size() == 14, "columns", fmt("%zu and %zu", q.size(), g.size()))) break;
      c.check(q[0] == s.it && g[0] == s.it && std::abs(q[1] - s.t) <= 1e-10 && std::abs(g[1] - s.t) <= 1e-5 * (s.t + 1), "time", fmt("row %zu: iteration %g time %.15g, snapshot %ld %.15g", k, q[0], q[1], s.it, s.t));
      auto row = [&](const char * n, double x, const Sum & y) { hh = hd(hh, x); c.check(std::abs(x - y.s) <= 1e-11 * y.a + 1e-13 * std::abs(x) + 1e-290, n, fmt("row %zu: %.15g, snapshot %.15g", k, x, y.s)); };
      auto eq = [&](const char * n, double x, double y) { c.check(std::abs(x - y) <= 1e-11 * std::abs(y) + 1e-290, n, fmt("row %zu: %.15g, snapshot %.15g", k, x, y)); };
      bool fmm = S.name.find("gravity") != S.name.npos, ev = false;
      for(auto & p : S.par) if(p.first == "evolve_internal_energy") ev = p.second == "yes";
      row("mass", q[3], m); row("kinetic energy", q[5], kin); if(ev || !fmm) row("internal energy", q[6], in);
      for(int d = 0; d < D; ++d) row("momentum", q[7 + d], mom[d]);
      if(D == 2) row("angular momentum", q[9], ang[2]);
      if(D == 3) for(int d = 0; d < 3; ++d) { row("angular momentum", q[10 + d], ang[d]); c.check(std::abs(q[13 + d] - com[d].s / cm.s) <= 1e-11 * (1 + com[d].a / cm.s), "centre of mass", fmt("row %zu: %.15g, snapshot %.15g", k, q[13 + d], com[d].s / cm.s)); }
      eq("smallest h", g[2], hm); eq("largest h", g[3], hM); eq("mean h", g[4], h.s / s.n);
      eq("fewest neighbours", g[5], nm); eq("most neighbours", g[6], nM); c.check(std::abs(g[7] - nt / s.n) < 1, "mean neighbours", fmt("row %zu: %g, snapshot %g", k, g[7], nt / s.n));
      eq("smallest speed", g[10], vm); eq("largest speed", g[11], vM); eq("mean speed", g[12], v.s / s.n);
    }
    c.outcome(hh);
  }
}
int main(int argc, char ** argv) { return mc::main_run(argc, argv, enumerate, 1); }
