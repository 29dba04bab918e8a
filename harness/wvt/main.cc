// Whole relaxation runs on any number of processes.
#include "../drv/drv.h"
using namespace mc;
#include "../drv/phys_sets.h"
#include "../drv/alone.h"
static double vol(int D, double r) { return D == 1 ? 2 * r : D == 2 ? M_PI * r * r : 4 * M_PI / 3 * r * r * r; }
static vector<TP> ball(int D, int n, int kind) {
  vector<TP> r;
  for(int i = 0; i < n; ++i) {
    TP q = TP();
    double rad = kind == 1 ? .55 + .44 * ((i * 7) % n) / n : pow((i + .5) / n, 1. / D) * .995, th = 2.4 * i + kind, z = n > 1 ? -1 + 2. * ((i * 5) % n + .5) / n : 0;
    if(D == 1) q.x[0] = i % 2 ? rad : -rad;
    if(D == 2) q.x[0] = rad * cos(th), q.x[1] = rad * sin(th);
    if(D == 3) { double s = sqrt(1 - z * z); q.x[0] = rad * s * cos(th); q.x[1] = rad * s * sin(th); q.x[2] = rad * z; }
    q.id = 2 * i + 5; q.m = .1; q.h = (D == 1 ? .5 : D == 2 ? .7 : .9) + (kind == 2 ? .03 * (i % 4) : 0); q.rho = 1; q.u = 1;
    r.push_back(q);
  }
  return r;
}
static void enumerate(Ctx & c) {
  th::scratch();
  bool T = c.thorough;
  for(int D = 1; D <= 3; ++D) for(auto meth : {"arth", "diehl"}) for(auto bound : {"reflective", "frozen"}) for(int kind = 0; kind < 3; ++kind) for(int var = 0; var < 6; ++var) {
    // variants: plain, variable h, cool down, by neighbours and cool down, converging early, rare output
    int last = T ? 6 : 4, cool = var == 2 || var == 3 ? 3 : 0, every = var == 5 ? 3 : 1, n = D == 1 ? 9 : 12;
    double mu = var == 4 ? 1e-5 : kind == 1 ? .5 : .1, R = 1, lim = var == 4 ? 60 : 1;
    Par par = {{"initial_data_prefix", q("in")}, {"output_h5data_prefix", q("out")}, {"out_h5data_every", fmt("%d", every)}, {"out_scalar_every", "1"}, {"out_screen_every", "0"}, {"out_diagnostic_every", "1"}, {"final_iteration", fmt("%d", last)}, {"initial_dt", ".5"}, {"sph_kernel", q("wendland c4")}, {"eos_type", q("no eos")},
      {"wvt_method", q(meth)}, {"wvt_boundary", q(bound)}, {"wvt_mu", fmt("%g", mu)}, {"wvt_ngb", D == 1 ? "4" : "6"}, {"wvt_cool_down", fmt("%d", cool)}, {"wvt_convergence_check", var == 2 ? "no" : "yes"}, {"wvt_convergence_point", fmt("%g", lim)}, {"wvt_h_ngb", var == 3 ? "yes" : "no"}, {"sph_variable_h", var == 1 || var == 3 ? "yes" : "no"}, {"sph_eta", "1.5"},
      {"density_profile", q(kind == 2 ? "parabolic" : "constant")}, {"rho_initial", "2"}, {"sphere_radius", "1"}, {"wvt_radius", "1"}};
    string tag = "wvt" + std::to_string(D);
    if(!c.want([&] { return fmt("%dD %s %s particles %d variant %d", D, meth, bound, kind, var); })) continue;
    auto & L = th::RankLibs<drv_entry_t>::get(tag, "drv_entry");
    for(int i = 0; i < 5; ++i) L.fn[i];
    Setup S;
    S.D = D; S.tag = tag; S.par = par; S.p = ball(D, n, kind);
    Out first;
    for(int np = 1; np <= (T ? 5 : 4); ++np) for(int k = 0; k < (np == 1 ? 1 : T ? 6 : 2); ++k) {
      Out o = alone(c, S, np == 1 ? 0 : (np + k) % 4, np, sched(np, k));
      string w = fmt("%d processes schedule %d: ", np, k);
      if(!c.check(o.ok, "run", w + o.err)) return;
      uint64_t h = np;
      if(!c.check(o.snap.size() > 0, "no snapshot", w)) return;
      long end = o.snap.back().it;
      bool early = end != last + cool;
      for(size_t i = 0; i < o.snap.size(); ++i) {
        auto & s = o.snap[i];
        c.check(s.n == S.p.size(), "number", w + fmt("%zu at iteration %ld", s.n, s.it));
        long want = i + 1 < o.snap.size() ? (long)i * every : end;
        c.check(s.it == want || (i + 1 == o.snap.size() && s.it % every == 0), "snapshot iterations", w + fmt("snapshot %zu is iteration %ld", i, s.it));
        const char *X[] = {"x", "y", "z"}, *A[] = {"ax", "ay", "az"};
        for(size_t j = 0; j < s.n; ++j) { double r = 0; for(int d = 0; d < 3; ++d) { double y = s.col.at(X[d])[j]; r += y * y; h = hd(h, y); } c.check(std::isfinite(r) && sqrt(r) <= R * (1 + 1e-12), "left the domain", w + fmt("particle %ld at iteration %ld: distance %.17g", s.id[j], s.it, sqrt(r))); }
        // how many still move; the run ends there and nowhere else
        if(every == 1 && s.it > 0 && s.it <= last && var != 2 && !(i + 1 == o.snap.size() && !early)) {
          int mv = 0; bool amb = false;
          for(size_t j = 0; j < s.n; ++j) { double a = 0; for(int d = 0; d < 3; ++d) a += s.col.at(A[d])[j] * s.col.at(A[d])[j]; double hh = s.col.at("h")[j]; if(i + 1 == o.snap.size() && early) hh = -1; double f = mu * sqrt(a) / (pow(1. / (D == 1 ? 4 : 6), 1. / D) * hh); mv += f > 1e-3; amb |= fabs(f / 1e-3 - 1) < 1e-6; }
          if(i + 1 < o.snap.size() && !amb) c.check(!(100. * mv / s.n < lim), "went on after convergence", w + fmt("iteration %ld: %d of %zu move", s.it, mv, s.n));
        }
        // displacement from one iteration to the next
        if(i && o.snap[i - 1].it + 1 == s.it && s.n == o.snap[i - 1].n) {
          auto & p = o.snap[i - 1];
          std::map<long, size_t> at;
          for(size_t j = 0; j < p.n; ++j) at[p.id[j]] = j;
          double m0 = s.it > last ? std::max(.1 * mu * (1 - (s.it - last) / (double)cool), 0.) : mu;
          for(size_t j = 0; j < s.n; ++j) {
            if(!at.count(s.id[j])) { c.fail("ids", w + fmt("particle %ld", s.id[j])); return; }
            size_t g = at[s.id[j]];
            double m = m0, y[3], r;
            auto go = [&] { r = 0; for(int d = 0; d < 3; ++d) y[d] = p.col.at(X[d])[g] + m * p.col.at(A[d])[g], r += y[d] * y[d]; r = sqrt(r); return r; };
            bool amb = fabs(go() - 1.01) < 1e-9;
            while(r > 1.01 * R && m > 1e-10) { m *= .5; amb |= fabs(go() - 1.01) < 1e-9; }
            if(amb || fabs(r - R) < 1e-9) continue;
            if(r >= R) for(int d = 0; d < 3; ++d) y[d] *= (2 * R - r) / r;
            for(int d = 0; d < 3; ++d) c.check(fabs(s.col.at(X[d])[j] - y[d]) <= 1e-11, "displacement", w + fmt("particle %ld iteration %ld component %d: %.15g want %.15g", s.id[j], s.it, d, s.col.at(X[d])[j], y[d]));
          }
        }
        if((var == 1 || var == 3) && s.it > 0 && s.it < end) { double v = 0; for(double x : s.col.at("h")) v += vol(D, x); c.check(fabs(v / vol(D, R) / (D == 1 ? 4 : 6) - 1) < 1e-10, "smoothing volume", w + fmt("iteration %ld: %.15g of the domain", s.it, v / vol(D, R))); }
        if(s.it == end) for(size_t j = 0; j < s.n; ++j) { // density and smoothing length of the profile
          double r = 0; for(int d = 0; d < 3; ++d) r += s.col.at(X[d])[j] * s.col.at(X[d])[j];
          double rho = 2 * (kind == 2 ? 1 - r : 1), hh = 1.5 * 2 * pow(.1 / rho, 1. / D);
          if(rho < 1e-6) continue;
          c.check(fabs(s.col.at("rho")[j] - rho) < 1e-11 && fabs(s.col.at("h")[j] - hh) < 1e-9 * hh, "final profile", w + fmt("particle %ld: density %.15g want %.15g, smoothing length %.15g want %.15g", s.id[j], s.col.at("rho")[j], rho, s.col.at("h")[j], hh));
        }
        h = hd(h, s.it);
      }
      if(var != 4) c.check(!early || lim > 0, "ended early", w + fmt("after iteration %ld", end));
      if(np == 1) first = o;
      else {
        if(!c.check(o.snap.size() == first.snap.size(), "snapshots", w + fmt("%zu, one process %zu", o.snap.size(), first.snap.size()))) return;
        for(size_t i = 0; i < o.snap.size(); ++i) if(!same(c, first.snap[i], o.snap[i], w, 1e-9)) return;
      }
      c.outcome(h);
    }
  }
}
int main(int argc, char ** argv) { return mc::main_run(argc, argv, enumerate, 1); }
