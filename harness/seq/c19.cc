// Stability limit of a particle: signal speed over its neighbours, and the step from it.
#include "phys.h"
static void sig(mc::Ctx & c, const std::vector<Pt> & s) {
  for(int rev = 0; rev < 2; ++rev) for(size_t a = 0; a < s.size(); ++a) {
    auto b = build(s);
    auto nb = nbs(b, s, a, rev);
    b[a].setSignalspeed(-1);
    physics::compute_signalspeed(b[a], nb);
    double want = 0;
    for(auto * q : nb) {
      if(q == &b[a]) continue;
      size_t j = q - b.data();
      double r = dist(s[a], s[j]), w = 0;
      if(r == 0) continue;
      for(int d = 0; d < D; ++d) w += (s[a].v[d] - s[j].v[d]) * (s[a].x[d] - s[j].x[d]) / r;
      want = std::max(want, std::max(s[a].c, s[j].c) + std::max(-w, 0.));
    }
    double g = b[a].getSignalspeed();
    c.check(std::abs(g - want) <= 1e-12 * (1 + want) || (nb.size() < 2 && g <= s[a].c && g >= 0), "signal speed", mc::fmt("particle %zu of %zu: %.15g, from its neighbours %.15g", a, s.size(), g, want));
    c.outcome(mc::hd(a, g));
  }
}
struct L { double h, v[3], a[3], g[3], vs, al, cfl, eta; int ker; bool th; double eint; int pot; };
static void lim(mc::Ctx & c, const L & l) {
  set("sph_kernel", "\"" + KER[l.ker] + "\""); kernels::select();
  set("sph_eta", l.eta); set("timestep_cfl_factor", l.cfl); set("sph_viscosity_alpha", l.al);
  set("evolve_internal_energy", l.th ? "yes" : "no"); set("thermokinetic_formulation", l.th ? "yes" : "no");
  set("gravity_acceleration_constant", 2.);
  external_force::select(l.pot == 1 && D > 1 ? "gravity" : "none");
  body b;
  b.set_coordinates(vec(l.v)); b.setVelocity(vec(l.v)); b.setAcceleration(vec(l.a)); b.setGAcceleration(vec(l.g)); b.set_radius(l.h); b.set_mass(1);
  b.setSignalspeed(l.vs); b.setSoundspeed(.1); b.setInternalenergy(l.eint); b.setTotalenergy(1); b.setDensity(1); b.setGPotential(0); b.set_id(1); b.setDt(-1);
  b.setVelocityhalf(vec(l.a)); b.setAlpha(.3);
  physics::compute_dt(b);
  double got = b.getDt(), dx = l.h / (l.eta * kernels::kernel_width), v = 0, a = 0, vg = 0;
  for(int d = 0; d < D; ++d) v += l.v[d] * l.v[d], a += (l.a[d] + l.g[d]) * (l.a[d] + l.g[d]), vg += l.v[d] * l.g[d];
  v = sqrt(v); a = sqrt(a);
  double base = 1e300;
  if(v > 0) base = std::min(base, dx / v);
  if(a > 0) base = std::min(base, sqrt(dx / a));
  if(l.vs > 0) base = std::min(base, dx / (l.vs * (1 + .6 * l.al)));
  if(base == 1e300) { c.check(got > 1e3, "unlimited step", mc::fmt("%g", got)); return; }
  base *= l.cfl;
  double want = base;
  if(l.th) {
    point_t p = vec(l.v);
    auto lost = [&](double t) { return external_force::potential(p + t * p) - external_force::potential(p) - t * vg; };
    int k = 0;
    for(; k < 20 && !(lost(want) < .5 * l.eint); ++k) want *= .25;
    c.check(lost(got) < .5 * l.eint, "energy left", mc::fmt("step %.15g takes %g of internal energy %g", got, lost(got), l.eint));
  }
  c.check(got > 0 && got <= base * (1 + 1e-12), "stability limit", mc::fmt("step %.15g, limit %.15g (resolution %g, speed %g, acceleration %g, signal speed %g)", got, base, dx, v, a, l.vs));
  c.check(std::abs(got - want) <= 1e-12 * want, "step", mc::fmt("%.15g, expected %.15g (resolution %g, speed %g, acceleration %g, signal speed %g)", got, want, dx, v, a, l.vs));
  c.outcome(mc::hd(1, got));
}
static void enumerate(mc::Ctx & c) {
  bool T = c.thorough;
  auto S = sites();
  for(int k = 1; k <= (T ? 5 : 4); ++k) for(auto & q : subsets(S.size(), std::min<int>(k, S.size()))) for(int a = 0; a < (T ? 24 : 8); ++a)
    if(c.want([&] { string s = mc::fmt("%dD signal speed attributes %d sites", D, a); for(int i : q) s += mc::fmt(" %d", i); return s; })) {
      c.exec();
      pick({KER[0], "constant", 1, 2, .01});
      std::vector<Pt> s;
      for(size_t i = 0; i < q.size(); ++i) s.push_back(attr(S[q[i]], i, a));
      sig(c, s);
    }
  const double V[] = {0, 1, -3, .02}, A[] = {0, 2, -50, .01}, G[] = {0, -2, 7}, VS[] = {0, .5, 20};
  for(int ker : {0, 1, 2, 6}) for(double h : {.01, 1., 300.}) for(double eta : {1.2, 2.1}) for(double cfl : {.25, 1.}) for(double al : {0., 1., 2.5})
    for(double v : V) for(double a : A) for(double g : G) for(double vs : VS) for(int m = 0; m < (T ? 12 : 4); ++m) {
      L l{h, {v, m % 2 ? .5 * v : 0, m % 3 ? 0 : -v}, {m % 4 == 3 ? 0 : a, m % 4 == 3 ? a : 0, m % 4 == 2 ? a : 0}, {g, m % 4 == 3 ? -g : 0, 0}, vs, al, cfl, eta, ker, false, 1, 0};
      for(int t = 0; t < 3; ++t) {
        if(t && (v == 0 || m > 1)) continue;
        l.th = t; l.pot = t - 1; l.eint = t == 2 ? 2. : .03;
        if(c.want([&] { return mc::fmt("%dD limit h %g v %g a %g g %g signal %g alpha %g cfl %g eta %g kernel %s variant %d energy %d", D, h, v, a, g, vs, al, cfl, eta, KER[ker].c_str(), m, t); })) { c.exec(); lim(c, l); }
      }
    }
}
int main(int argc, char ** argv) { return mc::main_run(argc, argv, enumerate, 64); }
