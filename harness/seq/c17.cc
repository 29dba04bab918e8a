// Artificial viscosity: pair term, its action on pairs, time-dependent coefficients over histories.
#include "phys.h"
static void term(mc::Ctx & c, const Cfg & k) {
  pick(k);
  std::vector<std::array<double, 3>> dir;
  for(int i = -1; i < 2; ++i) for(int j = D > 1 ? -1 : 0; j < (D > 1 ? 2 : 1); ++j) for(int l = D > 2 ? -1 : 0; l < (D > 2 ? 2 : 1); ++l) dir.push_back({(double)i, (double)j, (double)l});
  uint64_t hh = 1;
  for(auto & x : dir) for(auto & v : dir) if(D < 3 || (&x - &v) % 3 == 0) for(double sx : {1e-6, .1, 1., 30.}) for(double sv : {1e-5, 1., 1e3}) for(double h : {.3, 2.}) {
    double X[3], V[3], Y[3], W[3], vx = 0, r2 = 0;
    for(int d = 0; d < 3; ++d) X[d] = sx * x[d], V[d] = sv * v[d], Y[d] = -X[d], W[d] = -V[d], vx += X[d] * V[d], r2 += X[d] * X[d];
    double m = viscosity::mu(h, vec(V), vec(X)), n = viscosity::mu(h, vec(W), vec(Y));
    c.check(m == n, "mu not symmetric", mc::fmt("%g %g", m, n));
    double want = vx < 0 ? h * vx / (r2 + k.eps * h * h) : 0;
    c.check(vx < 0 ? fabs(m - want) <= 1e-12 * fabs(want) : m == 0, "mu", mc::fmt("v.x=%g r^2=%g h=%g: %.17g want %.17g", vx, r2, h, m, want));
    for(double rho : {.1, 3.}) for(double cs : {0., 1., 7.}) for(double al : {0., .3, 1.}) {
      double P = viscosity::sph_artificial_viscosity(al, rho, cs, m);
      double w = k.visc == "constant" ? (-k.alpha * cs * m + k.beta * m * m) / rho : al * (-cs * m + 2 * m * m) / rho;
      c.check(P >= 0, "viscous pressure negative", mc::fmt("mu=%g alpha=%g rho=%g c=%g: %g", m, al, rho, cs, P));
      c.check(vx < 0 || P == 0, "viscosity between receding particles", mc::fmt("v.x=%g Pi=%g", vx, P));
      c.check(fabs(P - w) <= 1e-12 * fabs(w), "viscous term", mc::fmt("mu=%g alpha=%g rho=%g c=%g: %.17g want %.17g", m, al, rho, cs, P, w));
      hh = mc::hd(hh, P);
    }
  }
  c.outcome(hh);
  c.exec();
}
static void pairs(mc::Ctx & c, std::vector<Pt> s, Cfg k) {
  int n = s.size();
  for(auto & p : s) for(int d = 0; d < 3; ++d) p.w[d] = p.v[d];
  double ke = 0, heat = 0;
  std::vector<double> a0(n * 3), a1(n * 3), u0(n), u1(n);
  bool all_recede = true;
  double sc = 0;
  for(int on = 0; on < 2; ++on) {
    Cfg q = k;
    if(!on) q.visc = "constant", q.alpha = q.beta = 0;
    pick(q);
    auto b = build(s);
    for(int i = 0; i < n; ++i) {
      auto nb = nbs(b, s, i);
      physics::compute_acceleration(b[i], nb);
      physics::compute_dudt(b[i], nb);
      for(int d = 0; d < D; ++d) (on ? a1 : a0)[3 * i + d] = b[i].getAcceleration()[d], sc = std::max(sc, fabs(b[i].getAcceleration()[d]));
      (on ? u1 : u0)[i] = b[i].getDudt();
    }
  }
  for(int i = 0; i < n; ++i) for(int j = 0; j < i; ++j) {
    double vx = 0;
    for(int d = 0; d < D; ++d) vx += (s[i].v[d] - s[j].v[d]) * (s[i].x[d] - s[j].x[d]);
    if(vx < 0) all_recede = false;
  }
  double us = 0;
  for(int i = 0; i < n; ++i) us = std::max({us, fabs(u0[i]), fabs(u1[i])});
  for(int i = 0; i < n; ++i) {
    c.check(u1[i] - u0[i] >= -1e-12 * us, "viscosity cools", mc::fmt("particle %d: du/dt by viscosity %g", i, u1[i] - u0[i]));
    heat += s[i].m * (u1[i] - u0[i]);
    for(int d = 0; d < D; ++d) {
      if(all_recede) c.check(a1[3 * i + d] == a0[3 * i + d], "viscosity acts on receding particles", mc::fmt("particle %d comp %d: %.17g vs %.17g", i, d, a1[3 * i + d], a0[3 * i + d]));
      ke += s[i].m * s[i].v[d] * (a1[3 * i + d] - a0[3 * i + d]);
    }
    if(all_recede) c.check(u1[i] == u0[i], "viscosity heats receding particles", mc::fmt("particle %d", i));
  }
  double tol = 1e-11 * (us + sc) * 20;
  c.check(ke <= tol, "viscosity feeds kinetic energy", mc::fmt("rate %g", ke));
  c.check(fabs(ke + heat) <= tol, "dissipated energy is not the heat", mc::fmt("kinetic %g heat %g", ke, heat));
  if(n == 2) for(int d = 0; d < D; ++d) { // along the line of centres, pushing apart
    double f = a1[d] - a0[d];
    for(int e = 0; e < D; ++e) {
      double g = a1[e] - a0[e];
      c.check(fabs(f * (s[0].x[e] - s[1].x[e]) - g * (s[0].x[d] - s[1].x[d])) <= tol, "viscosity is not central", mc::fmt("comp %d %d", d, e));
    }
    c.check(f * (s[0].x[d] - s[1].x[d]) >= -tol * tol, "viscosity attracts", mc::fmt("comp %d: %g", d, f));
  }
  c.outcome(mc::hd(mc::hd(3, ke), heat));
  c.exec();
}
// coefficient histories: program of velocity fields; after each step the sequence of the main loop
struct H { double al, div, ddiv; };
static std::vector<std::vector<H>> hist(mc::Ctx & c, std::vector<Pt> s, const Cfg & k, double amax, double l, double dt, const std::vector<int> & prog, const double * boost, bool judge) {
  pick(k);
  set("sph_viscosity_alpha_max", amax); set("sph_viscosity_l", l); set("sph_viscosity_delta", 1.);
  physics::dt = dt;
  int n = s.size();
  auto b = build(s);
  std::vector<std::vector<H>> r;
  for(auto & p : b) p.setDivergenceV(0);
  for(auto & p : b) viscosity::initialize_alpha(p);
  for(auto & p : b) if(judge) c.check(p.getAlpha() == 0, "initial coefficient", mc::fmt("%g", p.getAlpha()));
  for(size_t t = 0; t < prog.size(); ++t) {
    for(int i = 0; i < n; ++i) {
      double v[3] = {0, 0, 0};
      for(int d = 0; d < D; ++d) {
        double x = s[i].x[d], y = s[i].x[(d + 1) % D];
        switch(prog[t]) {
          case 0: break;
          case 1: v[d] = -x; break;
          case 2: v[d] = 3 * x; break;
          case 3: v[d] = d == 0 ? y : d == 1 ? -s[i].x[0] : 0; break;
          case 4: v[d] = -5 * x + y; break;
          case 5: v[d] = s[i].v[d]; break;
        }
        v[d] += boost[d];
      }
      b[i].setVelocity(vec(v)); b[i].setVelocityhalf(vec(v));
    }
    for(int i = 0; i < n; ++i) { auto nb = nbs(b, s, i); physics::compute_signalspeed(b[i], nb); physics::compute_divv(b[i], nb); }
    std::vector<body> old = b;
    for(int i = 0; i < n; ++i) { auto nb = nbs(b, s, i); viscosity::compute_alpha(b[i], nb); }
    r.push_back({});
    for(int i = 0; i < n; ++i) {
      double a = b[i].getAlpha(), x = b[i].getXi();
      r.back().push_back({a, b[i].getDivergenceV(), b[i].getDdivvdt()});
      if(!judge) continue;
      c.check(a >= 0 && a <= amax * (1 + 1e-14), "coefficient out of bounds", mc::fmt("step %zu particle %d: alpha=%g (maximum %g)", t, i, a, amax));
      c.check(x >= 0 && x <= 1 + 1e-14, "limiter out of bounds", mc::fmt("step %zu particle %d: xi=%g", t, i, x));
      double dv = b[i].getDivergenceV(), scale = 0, want = 0;
      for(int j = 0; j < n; ++j) if(dist(s[i], s[j]) < .5 * (s[i].h + s[j].h)) {
        double X[3], q = 0;
        for(int d = 0; d < 3; ++d) X[d] = d < D ? s[i].x[d] - s[j].x[d] : 0;
        point_t g = kernels::sph_kernel_gradient(vec(X), .5 * (s[i].h + s[j].h));
        for(int d = 0; d < D; ++d) { q += (b[j].getVelocity()[d] - b[i].getVelocity()[d]) * g[d]; scale += fabs(s[j].m * g[d]) * (fabs(b[j].getVelocity()[d]) + fabs(b[i].getVelocity()[d])) / s[i].rho; }
        want += s[j].m * q / s[i].rho;
      }
      c.check(fabs(dv - want) <= 1e-11 * scale + 1e-11, "velocity divergence", mc::fmt("step %zu particle %d: %g want %g", t, i, dv, want));
      double was = t ? r[t - 1][i].al : 0;
      // the local value the scheme sets: taken over when above, decayed from otherwise
      double vs = 0;
      for(int j = 0; j < n; ++j) {
        double D2 = dist(s[i], s[j]), vr = 0;
        if(j == i) { vs = std::max(vs, s[i].c); continue; }
        if(D2 > .5 * (s[i].h + s[j].h)) continue;
        for(int d = 0; d < D; ++d) vr += (b[i].getVelocity()[d] - b[j].getVelocity()[d]) * (s[i].x[d] - s[j].x[d]) / D2;
        vs = std::max(vs, std::max(s[i].c, s[j].c) - std::min(vr, 0.));
      }
      double A = x * std::max(-b[i].getDdivvdt(), 0.), loc = A > 0 ? amax * A / (vs * vs / (s[i].h * s[i].h) + A) : 0;
      if(A > 0 && A < 1e-6) {} // rounding
      else if(was < loc * (1 - 1e-9)) c.check(fabs(a - loc) <= 1e-9 * loc, "coefficient does not follow compression", mc::fmt("step %zu particle %d: %g after %g, local value %g", t, i, a, was, loc));
      else if(was > loc * (1 + 1e-9)) c.check(a <= was, "coefficient does not decay", mc::fmt("step %zu particle %d: %g after %g, local value %g", t, i, a, was, loc));
      if(dv > 0 && b[i].getDdivvdt() >= 0) c.check(a <= was * (1 + 1e-14), "coefficient grows without compression", mc::fmt("step %zu particle %d: %g after %g", t, i, a, was));
    }
  }
  return r;
}
static void go(mc::Ctx & c) {
  set("thermokinetic_formulation", "no");
  bool T = c.thorough;
  for(auto v : {"constant", "cullen"}) for(double al : {0., 1., 2.5}) for(double be : {0., 2.}) for(double ep : {.01, 1e-4, .5}) if(c.want([&] { return mc::fmt("%dD pair term %s alpha %g beta %g epsilon %g", D, v, al, be, ep); })) term(c, {"cubic spline", v, al, be, ep});
  auto x = sites();
  int na = T ? 64 : 24;
  for(int k = 2; k <= (T ? 5 : 4); ++k) for(auto & sub : subsets(x.size(), k)) for(int a = 0; a < na; ++a) for(auto v : {"constant", "cullen"}) for(auto & ker : KER) {
    if(ker == "super gaussian") continue;
    if((&ker - &KER[0] + a) % (T ? 2 : 4) || (k == 5 && a % 4)) continue;
    if(c.want([&] { string d = mc::fmt("%dD action of %s viscosity, %s, pattern %d sites", D, v, ker.c_str(), a); for(int i : sub) d += mc::fmt(" %d", i); return d; })) {
      std::vector<Pt> s;
      for(int i : sub) s.push_back(attr(x[i], i, a));
      pairs(c, s, {ker, v, 1, 2, .01});
    }
  }
  // histories
  int L = T ? 4 : 3;
  std::vector<int> prog;
  std::function<void()> rec = [&] {
    if(prog.size()) for(int conf = 0; conf < (T ? 8 : 4); ++conf) for(double dt : {1e-3, .5, 60.}) for(double cs : {1., 0.}) for(double amax : {1., 2.}) if(dt < 60 || conf % 2 == 0)
      if(c.want([&] { string d = mc::fmt("%dD coefficient history, configuration %d, dt %g, sound speed %g, maximum %g, flows", D, conf, dt, cs, amax); for(int p : prog) d += mc::fmt(" %d", p); return d; })) {
        std::vector<Pt> s;
        int n = x.size() - conf % 3;
        for(int i = 0; i < n; ++i) { s.push_back(attr(x[i], i, 4 * conf + conf / 2)); s.back().c = cs * (1 + i % 2); if(conf % 2) s.back().h = 1.1; s.back().m = conf < 2 ? .5 : s.back().m; }
        Cfg k{"cubic spline", "cullen", 1, 2, .01};
        double z[3] = {0, 0, 0}, bo[3] = {7, -3, 11};
        auto r = hist(c, s, k, amax, .05, dt, prog, z, true), q = hist(c, s, k, amax, .05, dt, prog, bo, false);
        uint64_t hh = 5;
        bool sharp = cs > 0; // the limiter depends on the sign of the divergence: skip where rounding decides it
        for(size_t t = 0; t < r.size(); ++t) {
          for(auto * w : {&r, &q}) for(auto & e : (*w)[t]) if(e.div != 0 && fabs(e.div) < 1e-6) sharp = false;
          for(size_t i = 0; i < s.size(); ++i) {
          if(sharp) c.check(fabs(r[t][i].al - q[t][i].al) <= 1e-5 * amax, "coefficient depends on the frame", mc::fmt("step %zu particle %zu: %g, moving frame %g", t, i, r[t][i].al, q[t][i].al));
          c.check(fabs(r[t][i].div - q[t][i].div) <= 1e-8, "divergence depends on the frame", mc::fmt("step %zu particle %zu: %g, moving frame %g", t, i, r[t][i].div, q[t][i].div));
          hh = mc::hd(mc::hd(hh, r[t][i].al), r[t][i].div);
          c.state(hh);
        } }
        c.outcome(hh);
        c.exec(2);
        c.steps(prog.size());
      }
    if((int)prog.size() == L) return;
    for(int f = 0; f < 6; ++f) { prog.push_back(f); rec(); prog.pop_back(); }
  };
  rec();
}
int main(int n, char ** a) { return mc::main_run(n, a, go, 16); }
