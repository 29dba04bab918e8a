#pragma once
// the reference: all pairs, ideal gas or polytrope, Wendland C4 or quintic spline
struct Ref {
  int D; bool evolve, thermo, grav; int passes, relax; double gamma, G, ext, beta; // ext: acceleration along -y
  double al = 1, be = 2, eps = .01;
  bool cullen = false; double amax = 2, len = .05, del = 1; // time-dependent viscosity coefficient
  int vh = 0; double eta = 1.5; // smoothing lengths: 1 from density, 2 their mean
  bool quintic = false, poly = false;
  double rr = 0, rg = 0; // short-range repulsion: radius, strength
  struct B { double x[3], v[3], w[3], a[3], g[3], m, h, u, e, rho, P, c, du, de, vs, al, dv, dd, K; long id; };
  vector<B> b;
  double L[3] = {0, 0, 0}; // periodic lengths, 0: none
  template<class F> void around(const B & p, F f) const { // every other particle or image: f(q, p - q, distance)
    for(auto & q : b) for(int z = 0; z < 27; ++z) {
      int n[3] = {z % 3 - 1, z / 3 % 3 - 1, z / 9 - 1};
      double x[3] = {0, 0, 0}, s = 0;
      bool ok = true;
      for(int d = 0; d < 3; ++d) if(n[d] && !L[d]) ok = false;
      if(!ok) continue;
      for(int d = 0; d < D; ++d) x[d] = p.x[d] - q.x[d] + n[d] * L[d], s += x[d] * x[d];
      if(s > 0) f(q, x, sqrt(s));
    }
  }
  void wrap() { for(auto & p : b) for(int d = 0; d < D; ++d) if(L[d]) { if(p.x[d] > L[d] / 2) p.x[d] -= L[d]; else if(p.x[d] <= -L[d] / 2) p.x[d] += L[d]; } }
  double pot(const B & p) const { return ext ? ext * p.x[1] : 0; }
  double ke(const B & p) const { double s = 0; for(int d = 0; d < D; ++d) s += .5 * p.v[d] * p.v[d]; return s; }
  static double pw(double x, int n) { return x > 0 ? pow(x, n) : 0; }
  double norm(double h) const { double k = h / 3; return D == 1 ? 1 / (120 * k) : D == 2 ? 7 / (478 * M_PI * k * k) : 1 / (120 * M_PI * k * k * k); }
  double width() const { return quintic ? 3 : 2; }
  double W(double r, double h) const {
    double q = r / h;
    if(q >= 1) return 0;
    if(quintic) return norm(h) * (pw(3 - 3 * q, 5) - 6 * pw(2 - 3 * q, 5) + 15 * pw(1 - 3 * q, 5));
    return D == 1 ? 1.5 / h * pow(1 - q, 5) * (1 + 5 * q + 8 * q * q) : (D == 2 ? 9 / M_PI / (h * h) : 495 / (32 * M_PI) / (h * h * h)) * pow(1 - q, 6) * (1 + 6 * q + 35. / 3 * q * q);
  }
  double dW(double r, double h) const { // derivative over r
    double q = r / h;
    if(q >= 1) return 0;
    if(quintic) return norm(h) * -15 / h * (pw(3 - 3 * q, 4) - 6 * pw(2 - 3 * q, 4) + 15 * pw(1 - 3 * q, 4));
    if(D == 1) return 1.5 / (h * h) * pow(1 - q, 4) * (-5 * (1 + 5 * q + 8 * q * q) + (1 - q) * (5 + 16 * q));
    return (D == 2 ? 9 / M_PI / (h * h * h) : 495 / (32 * M_PI) / (h * h * h * h)) * pow(1 - q, 5) * (-6 * (1 + 6 * q + 35. / 3 * q * q) + (1 - q) * (6 + 70. / 3 * q));
  }
  void eos(B & p) { if(poly) p.P = p.K * pow(p.rho, gamma), p.c = sqrt(gamma * p.P / p.rho); else p.P = (gamma - 1) * p.rho * p.u, p.c = sqrt(gamma * (gamma - 1) * p.u); }
  void density() { for(auto & p : b) { p.rho = p.m * W(0, p.h); around(p, [&](const B & q, double *, double s) { p.rho += q.m * W(s, .5 * (p.h + q.h)); }); if(evolve && thermo) p.u = p.e - ke(p) - pot(p); eos(p); } }
  template<class F> void pairs(const B & p, F f) { // f(q, viscous term, gradient)
    around(p, [&](const B & q, double * x, double s) {
      double h = .5 * (p.h + q.h);
      if(s >= h) return;
      double wx = 0, g[3] = {0, 0, 0};
      for(int d = 0; d < D; ++d) wx += (p.w[d] - q.w[d]) * x[d], g[d] = dW(s, h) * x[d] / s;
      double mu = wx < 0 ? h * wx / (s * s + eps * h * h) : 0, cb = .5 * (p.c + q.c), rb = .5 * (p.rho + q.rho);
      f(q, cullen ? -.5 * (p.al + q.al) * (cb - 2 * mu) * mu / rb : (-al * cb * mu + be * mu * mu) / rb, g);
    });
  }
  static double sign(double x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }
  void viscosity(double dt) {
    if(!cullen) return;
    for(auto & p : b) {
      double dv = 0;
      pairs(p, [&](const B & q, double, double * g) { for(int d = 0; d < D; ++d) dv += q.m * (q.v[d] - p.v[d]) * g[d] / p.rho; });
      p.dd = (dv - p.dv) / dt, p.dv = dv;
    }
    for(auto & p : b) {
      double R = p.m * sign(p.dv) * W(0, p.h), G[3][3] = {}, ss = 0, vs = p.c;
      around(p, [&](const B & q, double * x, double s) {
        double vn = 0;
        if(s > .5 * (p.h + q.h)) return;
        R += q.m * sign(q.dv) * W(s, .5 * (p.h + q.h));
        for(int d = 0; d < D; ++d) vn += (p.v[d] - q.v[d]) * x[d] / s;
        vs = std::max(vs, std::max(p.c, q.c) - std::min(vn, 0.));
      });
      R /= p.rho;
      pairs(p, [&](const B & q, double, double * g) { for(int i = 0; i < D; ++i) for(int j = 0; j < D; ++j) G[i][j] += q.m * (q.v[i] - p.v[i]) * g[j] / p.rho; });
      for(int i = 0; i < D; ++i) for(int j = 0; j < D; ++j) { double t = .5 * (G[i][j] + G[j][i]) - (i == j ? p.dv / D : 0); ss += t * t; }
      double y = 2 * pow(1 - R, 4) * p.dv, xi = y * y < 1e-16 ? 0 : y * y / (y * y + ss), A = xi * std::max(-p.dd, 0.);
      double loc = A > 0 ? amax * A / (del * vs * vs / (p.h * p.h) + A) : 0;
      p.al = p.al <= loc ? loc : p.al * exp(-(p.al - loc) * 2 * len * vs / p.h * dt);
    }
  }
  void lengths() {
    double t = 0;
    if(!vh) return;
    for(auto & p : b) p.h = eta * width() * pow(p.m / p.rho, 1. / D), t += p.h;
    if(vh == 2) for(auto & p : b) p.h = t / b.size();
  }
  void forces(int it) {
    for(auto & p : b) {
      for(int d = 0; d < 3; ++d) p.a[d] = p.g[d] = 0;
      p.vs = 0;
      around(p, [&](const B & q, double * x, double s) { // signal speed of the interacting pairs
        double vn = 0;
        if(s > .5 * (p.h + q.h)) return;
        for(int d = 0; d < D; ++d) vn += (p.v[d] - q.v[d]) * x[d] / s;
        p.vs = std::max(p.vs, std::max(p.c, q.c) - std::min(vn, 0.));
      });
      pairs(p, [&](const B & q, double Pi, double * g) { for(int d = 0; d < D; ++d) p.a[d] -= q.m * (p.P / p.rho / p.rho + q.P / q.rho / q.rho + Pi) * g[d]; });
      if(ext) p.a[1] -= ext;
      if(grav) around(p, [&](const B & q, double * x, double s) { for(int d = 0; d < D; ++d) p.g[d] -= G * q.m * x[d] / (s * s * s); });
      if(it < relax) for(int d = 0; d < D; ++d) p.a[d] -= beta * p.v[d];
      if(it < relax && rr > 0) around(p, [&](const B & q, double * x, double s) { if(s <= .5 * (p.h + q.h) * rr) for(int d = 0; d < D; ++d) p.a[d] += rg * q.m * x[d] / (s * s * s); });
    }
  }
  void rates(double dt, int it) {
    if(!evolve) return;
    for(int k = 0; k < passes; ++k) {
      for(auto & p : b) {
        p.du = p.de = 0;
        pairs(p, [&](const B & q, double Pi, double * g) { for(int d = 0; d < D; ++d) {
          p.du += q.m * (p.P / p.rho / p.rho + .5 * Pi) * (p.v[d] - q.v[d]) * g[d];
          p.de -= q.m * (p.P / p.rho / p.rho * q.v[d] + q.P / q.rho / q.rho * p.v[d] + .5 * Pi * (p.v[d] + q.v[d])) * g[d];
        } });
        for(int d = 0; d < D; ++d) p.de += p.v[d] * p.g[d];
        if(it < relax) { // nothing but the drag changes the internal energy
          p.du = 0;
          for(int d = 0; d < D; ++d) p.du -= beta * p.v[d] * p.v[d], p.de -= beta * p.v[d] * p.v[d];
        }
      }
      for(auto & p : b) {
        double keep, va = 0;
        for(int d = 0; d < D; ++d) va += p.v[d] * p.a[d];
        if(thermo) { keep = p.e - ke(p) - pot(p); p.u = keep + .5 * dt * (p.de - va); } else { keep = p.u; p.u += .5 * dt * p.du; }
        eos(p);
        p.u = keep;
      }
    }
  }
  void first(double dt, double dt0 = 0) { // dt0: the step before it is limited
    for(auto & p : b) { p.e = ke(p) + p.u + pot(p); for(int d = 0; d < 3; ++d) p.w[d] = p.v[d]; }
    wrap(); density(); viscosity(dt0 ? dt0 : dt); forces(0);
    for(auto & p : b) p.e = ke(p) + p.u + pot(p);
    rates(dt, 0);
    lengths();
  }
  double limit(double cfl, double eta) { // largest stable step
    double m = 1e300;
    for(auto & p : b) {
      double dx = p.h / (eta * width()), v = 0, a = 0;
      for(int d = 0; d < D; ++d) v += p.v[d] * p.v[d], a += (p.a[d] + p.g[d]) * (p.a[d] + p.g[d]);
      m = std::min(m, std::min(std::min(dx / (sqrt(v) + 1e-30), sqrt(dx / (sqrt(a) + 1e-30))), dx / (p.vs * (1 + .6 * al) + 1e-30)));
    }
    return cfl * m;
  }
  void kick(double dt) { for(auto & p : b) for(int d = 0; d < D; ++d) p.v[d] += .5 * dt * (p.a[d] + p.g[d]); }
  void kicke(double dt) { if(evolve) for(auto & p : b) if(thermo) p.e += .5 * dt * p.de; else p.u += .5 * dt * p.du; }
  void step(double dt, int it) {
    kicke(dt); kick(dt);
    for(auto & p : b) for(int d = 0; d < 3; ++d) p.w[d] = p.v[d];
    for(auto & p : b) for(int d = 0; d < D; ++d) p.x[d] += dt * p.v[d];
    wrap(); density(); viscosity(dt); forces(it); kick(dt); rates(dt, it); kicke(dt);
    lengths();
  }
};
