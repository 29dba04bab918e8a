// Pair forces, energy rates and densities of small systems: conservation and the documented sums.
#include "phys.h"
static uint64_t one(mc::Ctx & c, const std::vector<Pt> & s, const Cfg & k, bool rev, bool all) {
  pick(k);
  int n = s.size();
  // a truncated kernel jumps at the edge of the support, where rounding decides
  for(auto & p : s) for(auto & q : s) if(k.kernel.find("gaussian") != k.kernel.npos && fabs(dist(p, q) / (.5 * (p.h + q.h)) - 1) < 1e-9) return 1;
  auto b = build(s);
  std::vector<std::array<double, 3>> A(n), F(n);
  std::vector<double> U(n), E(n), sc(n), se(n);
  uint64_t hh = 11;
  // the documented sums with pair terms computed here
  for(int i = 0; i < n; ++i) {
    A[i] = F[i] = {0, 0, 0};
    U[i] = E[i] = 0; sc[i] = se[i] = 1e-12;
    double rho = 0;
    for(int j = 0; j < n; ++j) {
      auto &p = s[i], &q = s[j];
      double h = .5 * (p.h + q.h), r = dist(p, q);
      rho += q.m * (r < h ? kernels::sph_kernel_function(r, h) : 0.);
      if(r == 0 || r >= h) continue;
      double x[3] = {0, 0, 0}, vx = 0;
      for(int d = 0; d < D; ++d) x[d] = p.x[d] - q.x[d], vx += (p.w[d] - q.w[d]) * x[d];
      double mu = vx < 0 ? h * vx / (r * r + k.eps * h * h) : 0, rb = .5 * (p.rho + q.rho), cb = .5 * (p.c + q.c), al = .5 * (p.al + q.al);
      double Pi = k.visc == "constant" ? (-k.alpha * cb * mu + k.beta * mu * mu) / rb : al * (-cb * mu + 2 * mu * mu) / rb;
      double pa = p.P / (p.rho * p.rho), pb = q.P / (q.rho * q.rho);
      point_t g = kernels::sph_kernel_gradient(vec(x), h);
      for(int d = 0; d < D; ++d) {
        A[i][d] -= q.m * (pa + pb + Pi) * g[d];
        U[i] += q.m * (pa + .5 * Pi) * (p.v[d] - q.v[d]) * g[d];
        E[i] -= q.m * (pa * q.v[d] + pb * p.v[d] + .5 * Pi * (p.v[d] + q.v[d])) * g[d];
        sc[i] += fabs(q.m * (pa + pb + Pi) * g[d]);
        se[i] += fabs(q.m * (pa + pb + Pi) * g[d]) * (fabs(p.v[d]) + fabs(q.v[d]));
      }
    }
    auto nb = nbs(b, s, i, rev, all);
    if(rho > 0) {
      body t = b[i];
      physics::compute_density(t, nb);
      c.check(fabs(t.getDensity() - rho) <= 1e-13 * fabs(rho) + (k.kernel == "super gaussian" ? 1e-11 : 0), "density", mc::fmt("particle %d: %.17g want %.17g", i, t.getDensity(), rho));
      hh = mc::hd(hh, t.getDensity());
    }
  }
  // every rate is evaluated with the rates of the other particles both unset and set
  for(int i = 0; i < n; ++i) { auto nb = nbs(b, s, i, rev, all); physics::compute_acceleration(b[i], nb); }
  for(int i = 0; i < n; ++i) { auto nb = nbs(b, s, i, rev, all); physics::compute_dudt(b[i], nb); physics::compute_dedt(b[i], nb); }
  double p[3] = {0, 0, 0}, L[3] = {0, 0, 0}, ps = 0, ls = 0, e1 = 0, e2 = 0, es = 0;
  for(int i = 0; i < n; ++i) {
    point_t a = b[i].getAcceleration();
    double x[3] = {0, 0, 0}, f[3] = {0, 0, 0}, va = 0, xs = 0;
    for(int d = 0; d < D; ++d) {
      c.check(fabs(a[d] - A[i][d]) <= 1e-12 * sc[i], "acceleration differs from the pair sum", mc::fmt("particle %d comp %d: %.17g want %.17g", i, d, a[d], A[i][d]));
      x[d] = s[i].x[d]; f[d] = s[i].m * a[d]; va += s[i].v[d] * a[d]; xs += fabs(x[d]);
      p[d] += f[d];
    }
    for(int d = 0; d < 3; ++d) L[d] += x[(d + 1) % 3] * f[(d + 2) % 3] - x[(d + 2) % 3] * f[(d + 1) % 3];
    ps += s[i].m * sc[i]; ls += s[i].m * sc[i] * xs; es += s[i].m * se[i];
    double du = b[i].getDudt(), de = b[i].getDedt();
    c.check(fabs(du - U[i]) <= 1e-12 * se[i], "energy rate differs from the pair sum", mc::fmt("particle %d: du/dt %.17g want %.17g", i, du, U[i]));
    c.check(fabs(de - E[i]) <= 1e-12 * se[i], "total energy rate differs from the pair sum", mc::fmt("particle %d: de/dt %.17g want %.17g", i, de, E[i]));
    c.check(fabs(de - du - va) <= 1e-12 * se[i] + 1e-12 * fabs(va), "de/dt is not v.a + du/dt", mc::fmt("particle %d: %.17g, %.17g", i, de, du + va));
    e1 += s[i].m * (va + du); e2 += s[i].m * de;
    hh = mc::hd(mc::hd(mc::hd(hh, a[0]), du), de);
  }
  for(int d = 0; d < 3; ++d) {
    c.check(fabs(p[d]) <= 1e-12 * ps, "momentum", mc::fmt("comp %d: sum of forces %g, scale %g", d, p[d], ps));
    c.check(fabs(L[d]) <= 1e-12 * ls + 1e-12 * ps, "angular momentum", mc::fmt("comp %d: sum of torques %g, scale %g", d, L[d], ls));
  }
  c.check(fabs(e1) <= 1e-12 * es, "energy (internal)", mc::fmt("sum of m(v.a+du/dt) %g, scale %g", e1, es));
  c.check(fabs(e2) <= 1e-12 * es, "energy (total)", mc::fmt("sum of m de/dt %g, scale %g", e2, es));
  // gravity enters the total energy rate as v.g and nothing else
  for(int i = 0; i < n; ++i) {
    double g[3] = {1.5, -.5, 2}, vg = 0;
    for(int d = 0; d < D; ++d) vg += g[d] * s[i].v[d];
    double was = b[i].getDedt();
    b[i].setGAcceleration(vec(g));
    auto nb = nbs(b, s, i, rev, all);
    physics::compute_dedt(b[i], nb);
    c.check(fabs(b[i].getDedt() - was - vg) <= 1e-12 * (se[i] + fabs(vg)), "gravity in de/dt", mc::fmt("particle %d: %g want %g", i, b[i].getDedt() - was, vg));
    // internal energy is not evolved during relaxation
    set("relaxation_steps", "5"); physics::iteration = 4;
    physics::compute_dudt(b[i], nb);
    c.check(b[i].getDudt() == 0, "du/dt during relaxation", mc::fmt("%g", b[i].getDudt()));
    physics::iteration = 5;
    physics::compute_dudt(b[i], nb);
    c.check(fabs(b[i].getDudt() - U[i]) <= 1e-12 * se[i], "du/dt after relaxation", mc::fmt("%g want %g", b[i].getDudt(), U[i]));
    physics::iteration = 0; set("relaxation_steps", "0");
  }
  return hh;
}
static void go(mc::Ctx & c) {
  set("thermokinetic_formulation", "no");
  auto x = sites();
  bool T = c.thorough;
  std::vector<Cfg> cf;
  for(auto & k : KER) for(auto v : {"constant", "cullen"}) cf.push_back({k, v, 1, 2, .01});
  cf.push_back({"wendland c4", "constant", 0, 0, .01}); cf.push_back({"cubic spline", "constant", 1.7, .3, .1}); cf.push_back({"cubic spline", "constant", 0, 2, 0.});
  int na = T ? 48 : 12;
  for(int k = 1; k <= (T ? 5 : 4); ++k) for(auto & sub : subsets(x.size(), k)) for(int a = 0; a < na; ++a) for(size_t f = 0; f < cf.size(); ++f) {
    if(!T && f > 3 && f < 16 && (a + f) % 4) continue;
    if(T && k == 5 && (a + f) % 4) continue;
    if(!c.want([&] { string d = mc::fmt("%dD %s %s viscosity %g %g %g pattern %d sites", D, cf[f].kernel.c_str(), cf[f].visc.c_str(), cf[f].alpha, cf[f].beta, cf[f].eps, a); for(int i : sub) d += mc::fmt(" %d", i); return d; })) continue;
    std::vector<Pt> s;
    for(int i : sub) s.push_back(attr(x[i], i, a));
    c.outcome(one(c, s, cf[f], false, false));
    one(c, s, cf[f], true, true);
    c.exec(2);
  }
  // particles on the edge of each other's support, at the same place, far apart; far from the origin
  for(double r : {0., 1e-8, .499999999, .5, .999999999999, 1., 1.0000000001, 5.}) for(int a = 0; a < na; ++a) for(auto & f : cf) for(double off : {0., -3., 100.})
    if(c.want([&] { return mc::fmt("%dD %s %s pair at distance %.13g pattern %d offset %g", D, f.kernel.c_str(), f.visc.c_str(), r, a, off); })) {
      std::vector<Pt> s = {attr({off, 0, 0}, 0, a), attr({off + r, 0, 0}, 1, a), attr({off + .6, .1, .2}, 2, a)};
      s[0].h = s[1].h = 1.;
      if(r == 0) for(int d = 0; d < 3; ++d) s[1].v[d] = s[0].v[d];
      c.outcome(one(c, s, f, false, false));
      c.exec();
    }
}
int main(int n, char ** a) { return mc::main_run(n, a, go, 64); }
