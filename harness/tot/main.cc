// Reported totals, extrema and means against their definition over the whole set.
#include "../tree/common.h"
#include "ocase.h"
#include <cmath>
using namespace mc;
using std::string; using std::vector;
#ifndef DIM
#define DIM 3
#endif
static const int D = DIM;
struct Kind { bool thermo, fmm, evolve; const char * force; };
static const Kind KIND[] = {{0, 0, 0, "none"}, {0, 0, 1, "none"}, {1, 0, 1, "none"}, {0, 1, 0, "none"}, {0, 1, 1, "none"}, {0, 0, 1, "gravity"}, {1, 1, 1, "none"}};
static const double GRAV = 1.75;
static double width = 0;
static vector<vector<double>> rows(const char * f) {
  vector<vector<double>> r;
  std::ifstream s(f);
  for(string l; std::getline(s, l);) { if(l.size() && l[0] == '#') continue; std::istringstream w(l); vector<double> v; for(string x; w >> x;) v.push_back(strtod(x.c_str(), 0)); r.push_back(v); }
  return r;
}
static OP part(int i, int pat) {
  OP q{};
  uint64_t k = mix(mix(pat * 131 + 7, i), 3);
  auto pick = [&](int n) { k = mix(k, 11); return (int)((k >> 17) % n); };
  for(int d = 0; d < D; ++d) { q.x[d] = (i * (d + 1) * .37 - d) + .01 * pick(9); q.v[d] = pat % 5 == 0 ? (pick(3) - 1) : .5 * (pick(13) - 6); if(pat % 7 == 3) q.v[d] = 0; }
  static const double M[] = {1, .25, 3, 1e-3, 40};
  q.m = M[pick(5)]; q.h = .5 + .25 * pick(6); q.u = .5 * pick(8); q.e = .25 * (pick(17) - 6); q.rho = .5 + pick(4); q.gp = -.5 * pick(7); q.type = pat % 3 == 1 ? pick(4) == 0 : 0; q.nb = pat % 2 ? pick(40) : 40 - pat % 30 + pick(3);
  return q;
}
struct Sum { double s = 0, a = 0; void operator+=(double x) { s += x; a += std::abs(x); } };
static bool near(double x, const Sum & s, double tol = 1e-12) { return std::abs(x - s.s) <= tol * (s.a + 1e-300); }
static bool printed(double x, const Sum & s, double tol = 2e-12) { return std::abs(x - s.s) <= tol * (s.a + std::abs(s.s) + 1e-300); }
static void one(Ctx & c, const OCase & k, int kind, const sim::Sched & sc) {
  unlink("scalar_reductions.dat"); unlink("diagnostic.dat"); unlink("in.h5part"); h5::reset();
  size_t N = k.st[0].p.size();
  vector<TP> tp(N);
  for(size_t i = 0; i < N; ++i) { tp[i] = TP(); tp[i].id = i; tp[i].x[0] = i; tp[i].m = 1; tp[i].h = 1; tp[i].rho = 1; tp[i].u = 1; }
  th::save_particles("in.h5part", D, tp);
  vector<ORes> res(k.n);
  auto & L = th::RankLibs<tot_entry_t>::get("o" + std::to_string(D), "tot_entry");
  std::function<void(uint64_t)> sink = [&](uint64_t h) { c.state(h); };
  sim::Result r = sim::run(k.n, sc, [&](int i) { L.fn[i](i, &k, &res[i]); }, sink);
  c.exec(); c.steps(r.steps);
  if(!r.ok) { c.fail(r.key, r.msg); return; }
  auto rw = rows("scalar_reductions.dat"), dg = rows("diagnostic.dat");
  const Kind & K = KIND[kind];
  c.check(rw.size() == k.st.size(), "scalar rows", fmt("%zu rows for %zu reports", rw.size(), k.st.size()));
  if(k.diag) c.check(dg.size() == k.st.size(), "diagnostic rows", fmt("%zu rows for %zu reports", dg.size(), k.st.size()));
  uint64_t h = k.n;
  for(size_t s = 0; s < k.st.size() && s < rw.size(); ++s) {
    auto & S = k.st[s];
    Sum m, kin, in, gr, e, mom[3], ang[3], havg, vavg, nav, com[3], cm, nh;
    double hmin = 1e300, hmax = 0, vmin = 1e300, vmax = 0, nmin = 1e300, nmax = 0;
    for(auto & q : S.p) {
      double v2 = 0;
      for(int d = 0; d < D; ++d) v2 += q.v[d] * q.v[d];
      double v = std::sqrt(v2);
      hmin = std::min(hmin, q.h); hmax = std::max(hmax, q.h); vmin = std::min(vmin, v); vmax = std::max(vmax, v); nmin = std::min(nmin, (double)q.nb); nmax = std::max(nmax, (double)q.nb);
      havg += q.h; vavg += v; nav += q.nb;
      nh += std::pow(q.m / q.rho, 1. / D);
      cm += q.m; for(int d = 0; d < D; ++d) com[d] += q.m * q.x[d];
      if(q.type) continue;
      m += q.m; kin += .5 * q.m * v2; in += q.m * q.u; gr += .5 * q.m * q.gp;
      double pot = string(K.force) == "gravity" && D > 1 ? GRAV * q.x[1] : 0;
      if(K.thermo) e += q.m * q.e; else { e += .5 * q.m * v2; e += q.m * q.u; e += q.m * pot; }
      if(K.fmm) e += .5 * q.m * q.gp;
      for(int d = 0; d < D; ++d) mom[d] += q.m * q.v[d];
      if(D == 2) { ang[0] += q.m * q.x[0] * q.v[1]; ang[0] += -q.m * q.x[1] * q.v[0]; }
      if(D == 3) for(int d = 0; d < 3; ++d) { int a = (d + 1) % 3, b = (d + 2) % 3; ang[d] += q.m * q.x[a] * q.v[b]; ang[d] += -q.m * q.x[b] * q.v[a]; }
    }
    // what each process holds after the report
    for(int i = 0; i < k.n; ++i) {
      if(res[i].v.size() <= s) { c.fail("missing", "report"); return; }
      auto & o = res[i].v[s];
      string w = fmt("report %zu process %d of %d: ", s, i, k.n);
      auto chk = [&](const char * nm, double x, const Sum & y) { c.check(near(x, y), nm, w + fmt("%.15g, definition %.15g", x, y.s)); h = hd(h, x); };
      chk("mass", o.mass, m); chk("kinetic energy", o.kin, kin); chk("internal energy", o.in, in); chk("gravitational energy", o.grav, gr); chk("energy", o.e, e);
      for(int d = 0; d < D; ++d) chk("momentum", o.mom[d], mom[d]);
      if(D > 1) for(int d = 0; d < (D == 2 ? 1 : 3); ++d) chk("angular momentum", o.ang[d], ang[d]);
      for(double x : o.newh) c.check(std::abs(x - o.newh[0]) == 0, "average smoothing length", w + fmt("%.15g and %.15g", o.newh[0], x));
      if(o.newh.size()) { // eta and kernel width are a common factor: the ratio to another set's is that of the definitions
        double q = o.newh[0] / (nh.s / S.p.size());
        static double q0 = 0;
        if(q0 == 0) q0 = q;
        c.check(std::abs(q / q0 - 1) < 1e-11 && q > 0, "average smoothing length", w + fmt("%.15g is %.15g times the mean of (m/rho)^(1/D), before %.15g", o.newh[0], q, q0));
      }
    }
    // the rows
    auto & q = rw[s];
    string w = fmt("row %zu: ", s);
    size_t want = 7 + D + (D == 2 ? 1 : 0) + (D == 3 ? 6 : 0);
    if(!c.check(q.size() == want, "scalar row", w + fmt("%zu columns of %zu", q.size(), want))) return;
    c.check(q[0] == S.it, "row iteration", w + fmt("%g", q[0]));
    c.check(std::abs(q[1] - S.t) <= 1e-12 * S.t && std::abs(q[2] - S.dt) <= 1e-12 * S.dt, "row time", w + fmt("%.15g %.15g", q[1], q[2]));
    auto row = [&](const char * nm, size_t i, const Sum & y) { c.check(printed(q[i], y), nm, w + fmt("column %zu is %.15g, definition %.15g", i + 1, q[i], y.s)); };
    row("row mass", 3, m); row("row energy", 4, e); row("row kinetic energy", 5, kin); row("row internal energy", 6, K.fmm && !K.evolve ? gr : in);
    for(int d = 0; d < D; ++d) row("row momentum", 7 + d, mom[d]);
    if(D == 2) row("row angular momentum", 9, ang[0]);
    if(D == 3) for(int d = 0; d < 3; ++d) {
      row("row angular momentum", 10 + d, ang[d]);
      c.check(std::abs(q[13 + d] - com[d].s / cm.s) <= 1e-11 * (1 + com[d].a / cm.s), "row centre of mass", w + fmt("column %d is %.15g, definition %.15g", 14 + d, q[13 + d], com[d].s / cm.s));
    }
    if(k.diag && s < dg.size()) {
      auto & g = dg[s];
      string w = fmt("diagnostic %zu (%d processes): ", s, k.n);
      if(!c.check(g.size() == 14, "diagnostic row", w + fmt("%zu columns", g.size()))) continue;
      auto eq = [&](const char * nm, int i, double y) { c.check(std::abs(g[i] - y) <= 2e-12 * (std::abs(y) + 1e-290), nm, w + fmt("column %d is %.15g, definition %.15g", i + 1, g[i], y)); };
      eq("diag iteration", 0, S.it); eq("diag time", 1, S.t); eq("smallest h", 2, hmin); eq("largest h", 3, hmax); eq("mean h", 4, havg.s / S.p.size());
      eq("fewest neighbours", 5, nmin); eq("most neighbours", 6, nmax); c.check(std::abs(g[7] - nav.s / S.p.size()) < 1, "mean neighbours", w + fmt("%g, definition %g", g[7], nav.s / S.p.size()));
      eq("smallest speed", 10, vmin); eq("largest speed", 11, vmax); eq("mean speed", 12, vavg.s / S.p.size());
    }
  }
  c.outcome(h);
}
static void enumerate(Ctx & c) {
  th::scratch();
  auto & L = th::RankLibs<tot_entry_t>::get("o" + std::to_string(D), "tot_entry");
  for(int i = 0; i < 4; ++i) L.fn[i];
  bool T = c.thorough;
  // every split of N particles over n ranks, every kind of run, series of three different reports
  for(int N = 1; N <= (T ? 6 : 5); ++N) for(int n = 1; n <= 4; ++n) {
    long tot = 1;
    for(int i = 0; i < N; ++i) tot *= n;
    for(long sp = 0; sp < tot; ++sp) for(int kd = 0; kd < 7; ++kd) {
      bool tree = D == 3;
      vector<int> own(N), cnt(n, 0);
      long z = sp;
      for(int i = 0; i < N; ++i) { own[i] = z % n; ++cnt[own[i]]; z /= n; }
      bool empty = *std::min_element(cnt.begin(), cnt.end()) == 0;
      bool even = *std::max_element(cnt.begin(), cnt.end()) - *std::min_element(cnt.begin(), cnt.end()) <= 1;
      if(tree && (empty || N < 2 || !even)) continue; // the tree is built from balanced non-empty shares
      if(!T && n == 4 && sp % 3 != kd % 3) continue;
      OCase k;
      k.n = n; k.tree = tree; k.diag = !empty;
      auto set = [&](const char * a, const string & b) { k.par.push_back({a, b}); };
      set("out_scalar_every", "1"); set("out_diagnostic_every", "1"); set("thermokinetic_formulation", KIND[kd].thermo ? "yes" : "no"); set("evolve_internal_energy", KIND[kd].evolve ? "yes" : "no"); set("enable_fmm", KIND[kd].fmm ? "yes" : "no");
      set("gravity_acceleration_constant", fmt("%g", GRAV)); set("external_force_type", D == 1 && string(KIND[kd].force) == "gravity" ? "\"none\"" : string("\"") + KIND[kd].force + "\""); set("out_screen_every", "0");
      set("sph_kernel", "\"wendland c4\"");
      int pat = (int)(mix(sp, N * 8 + kd) % 97);
      for(int s = 0; s < 3; ++s) {
        OState S;
        S.it = s * 7; S.t = .125 * s + .5; S.dt = .01 + s;
        for(int i = 0; i < N; ++i) S.p.push_back(part(i, pat + s * 13));
        S.owner = own;
        if(s == 1) std::rotate(S.owner.begin(), S.owner.begin() + N / 2, S.owner.end());
        k.st.push_back(S);
      }
      if(c.want([&] { string o; for(int x : own) o += fmt("%d", x); return fmt("%dD %d particles on ranks %s of %d kind %d values %d", D, N, o.c_str(), n, kd, pat); }))
        c.isolated([&] {
          sim::Sched sc;
          for(int i = 0; i < n; ++i) sc.prio.push_back(sp % 2 ? n - 1 - i : i);
          sc.rendezvous = sp % 3 == 0;
          one(c, k, kd, sc);
        });
    }
  }
}
int main(int argc, char ** argv) { return mc::main_run(argc, argv, enumerate); }
