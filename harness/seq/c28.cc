// Relaxation: pseudo-accelerations, displacement at the boundary, smoothing lengths, convergence.
#include "phys.h"
#include "wvt.h"
struct R3 { double x[3]; };
static double nrm(const double * x) { double s = 0; for(int d = 0; d < D; ++d) s += x[d] * x[d]; return sqrt(s); }
static double vol(double r) { return D == 1 ? 2 * r : D == 2 ? M_PI * r * r : 4 * M_PI / 3 * r * r * r; }
static R3 mirror(const R3 & p, double R) { R3 q = p; double r = nrm(p.x), f = (2 * R - r) / r; for(int d = 0; d < D; ++d) q.x[d] *= f; return q; }
// candidate positions in units of the boundary: centre, axes, generic, near, on and beyond the boundary
static std::vector<R3> places() {
  std::vector<R3> v;
  auto dir = [&](double a, double b, double c, std::vector<double> rs) {
    double n = D == 1 ? fabs(a) : D == 2 ? hypot(a, b) : sqrt(a * a + b * b + c * c);
    if(n == 0) return;
    for(double r : rs) { R3 p{{a / n * r, D > 1 ? b / n * r : 0, D > 2 ? c / n * r : 0}}; v.push_back(p); }
  };
  v.push_back({{0, 0, 0}});
  dir(1, 0, 0, {.3, .9, 1 - 1e-9}); dir(-1, 0, 0, {.25, .8, .97, 1});
  if(D > 1) { dir(0, 1, 0, {.85, .4}); dir(0, -1, 0, {.93}); dir(.6, -.5, .3, {.55, .99}); dir(-1, -2, 1.5, {.7, 1.003}); }
  if(D > 2) { dir(0, 0, 1, {.6, .96}); dir(0, 0, -1, {.9}); dir(1e-7, 0, 1, {.94}); }
  return v;
}
struct K { string meth, bound; double R, h; int hp; };
static std::vector<body> make(const std::vector<R3> & s, const K & k) {
  std::vector<Pt> p;
  for(size_t i = 0; i < s.size(); ++i) { Pt q{}; for(int d = 0; d < 3; ++d) q.x[d] = s[i].x[d] * k.R; q.m = .5 + .25 * i; static const double far[2][4] = {{1, .3, .6, .12}, {.25, 1, .1, .5}};
    q.h = k.h * k.R * (k.hp == 0 ? 1 : k.hp >= 2 ? far[k.hp - 2][i % 4] : 1 + .15 * ((i * 5 + k.hp) % 4)); q.rho = 1; q.P = 1; q.u = 1; q.c = 1; p.push_back(q); }
  return build(p);
}
static void pickw(const K & k) {
  set("wvt_method", "\"" + k.meth + "\""); set("wvt_boundary", "\"" + k.bound + "\""); set("wvt_radius", k.R);
  wvt::select();
}
static double kern(const K & k, double r, double h) { // strength of the repulsion at separation r
  if(k.meth == "arth") return h * kernels::sph_kernel_function(r, h) * pow(h, D);
  double a = h / (r + .3 * h), b = 1 / 1.3;
  return std::max(a * a - b * b, 0.);
}
static uint64_t accel(mc::Ctx & c, const std::vector<R3> & s, const K & k) {
  pickw(k);
  auto b = make(s, k);
  uint64_t hh = 3;
  std::vector<std::array<double, 3>> A(s.size());
  for(size_t i = 0; i < s.size(); ++i) {
    std::vector<body *> nb;
    R3 xi;
    for(int d = 0; d < 3; ++d) xi.x[d] = s[i].x[d] * k.R;
    double hi = b[i].radius(), ri = nrm(xi.x);
    double a[3] = {0, 0, 0}, sc = 1e-300, edge = fabs(ri + hi - k.R), out = fabs(ri - k.R);
    for(size_t j = 0; j < s.size(); ++j) { // the search gives everything within the mean smoothing length
      R3 x; double t[3];
      for(int d = 0; d < 3; ++d) x.x[d] = s[j].x[d] * k.R, t[d] = xi.x[d] - x.x[d];
      double h = .5 * (hi + b[j].radius()), r = nrm(t);
      if(r > h) continue;
      nb.push_back(&b[j]);
      if(r > 0) { double f = (k.meth == "arth" ? 1 : hi) * kern(k, r, h); for(int d = 0; d < D; ++d) a[d] += f * t[d] / r; sc += fabs(f); }
      double rj = nrm(x.x);
      if(k.bound == "reflective" && ri + hi > k.R && rj < k.R && rj > 0) {
        R3 m = mirror(x, k.R);
        for(int d = 0; d < 3; ++d) t[d] = xi.x[d] - m.x[d];
        double rm = nrm(t), f = k.meth == "arth" ? hi * kernels::sph_kernel_function(rm, h) * pow(hi, D) : hi * kern(k, rm, hi);
        if(rm > 0) { for(int d = 0; d < D; ++d) a[d] += f * t[d] / rm; sc += fabs(f); }
      }
    }
    if(k.bound == "reflective" && ri + hi > k.R && ri > 0) {
      R3 m = mirror(xi, k.R);
      double t[3];
      for(int d = 0; d < 3; ++d) t[d] = xi.x[d] - m.x[d];
      double rm = nrm(t), f = (k.meth == "arth" ? 1 : hi) * kern(k, rm, hi);
      if(rm > 0) { for(int d = 0; d < D; ++d) a[d] += f * t[d] / rm; sc += fabs(f); }
    }
    if(k.bound == "frozen" && ri + hi > k.R && ri > 0) { double ra = 0; for(int d = 0; d < D; ++d) ra += a[d] * xi.x[d] / ri; for(int d = 0; d < D; ++d) a[d] = 2 * (a[d] - ra * xi.x[d] / ri); }
    if(ri > k.R) a[0] = a[1] = a[2] = 0;
    wvt::wvt_acceleration(b[i], nb);
    point_t g = b[i].getAcceleration();
    for(int d = 0; d < D; ++d) c.check(std::isfinite(g[d]), "not finite", mc::fmt("particle %zu component %d: %g", i, d, g[d]));
    // at the very edges of the boundary zone rounding decides; the direction to a mirror image next to the particle is all rounding
    if(edge > 1e-12 * k.R && out > 1e-12 * k.R && k.R - ri > 1e-7 * k.R || ri > k.R * (1 + 1e-9)) for(int d = 0; d < D; ++d)
      c.check(fabs(g[d] - a[d]) <= 1e-10 * sc + 1e-14 * hi, "acceleration", mc::fmt("particle %zu component %d: %.15g want %.15g", i, d, g[d], a[d]));
    for(int d = 0; d < D; ++d) A[i][d] = g[d], hh = mc::hd(hh, g[d]);
  }
  if(k.hp == 0 && k.bound == "none") for(int d = 0; d < D; ++d) { // opposite contributions
    double t = 0, sc = 0;
    bool in = true;
    for(size_t i = 0; i < s.size(); ++i) t += A[i][d], sc += fabs(A[i][d]), in &= nrm(s[i].x) <= 1;
    if(in) c.check(fabs(t) <= 1e-12 * sc, "not symmetric", mc::fmt("component %d: the accelerations add up to %g", d, t));
  }
  return hh;
}
static uint64_t move(mc::Ctx & c, const R3 & p, const K & k, double ax, int ad, double mu, int it, int last, int cool, const string & prof, bool ngb) {
  pickw(k);
  set("wvt_mu", mu); set("final_iteration", mc::fmt("%d", last)); set("wvt_cool_down", mc::fmt("%d", cool)); set("wvt_h_ngb", ngb ? "yes" : "no"); set("wvt_ngb", 20.); set("sphere_radius", k.R * (k.hp && prof == "constant" ? .8 : 1)); set("rho_initial", 2.5); set("sph_eta", 1.5);
  set("density_profile", "\"" + prof + "\""); density_profiles::select();
  physics::iteration = it;
  auto b = make({p}, k);
  double x[3], a[3] = {0, 0, 0}, y[3] = {0, 0, 0};
  for(int d = 0; d < 3; ++d) x[d] = p.x[d] * k.R;
  { double dirs[4][3] = {{1, 0, 0}, {-1, .2, .1}, {.3, -1, .5}, {.1, .4, -1}}; double n = nrm(dirs[ad]); for(int d = 0; d < D; ++d) a[d] = ax * dirs[ad][d] / n; }
  b[0].setAcceleration(vec(a));
  b[0].setVelocity(vec(a));
  double m = it > last ? std::max(.1 * mu * (1 - (it - last) / (double)cool), 0.) : mu;
  auto at = [&] { for(int d = 0; d < D; ++d) y[d] = x[d] + m * a[d]; return nrm(y); };
  double r = at();
  bool amb = false;
  while(r / k.R > 1.01 && m > 1e-10) { if(fabs(r / k.R - 1.01) < 1e-9) amb = true; m *= .5; r = at(); }
  if(fabs(r / k.R - 1.01) < 1e-9 || fabs(r / k.R - 1) < 1e-9) amb = true;
  if(r >= k.R) { R3 q{{y[0], y[1], y[2]}}; q = mirror(q, k.R); for(int d = 0; d < 3; ++d) y[d] = q.x[d]; }
  r = nrm(y);
  body was = b[0];
  wvt::wvt_displacement(b[0]);
  point_t g = b[0].coordinates();
  double got[3] = {0, 0, 0};
  for(int d = 0; d < D; ++d) got[d] = g[d], c.check(std::isfinite(g[d]), "not finite", mc::fmt("component %d", d));
  bool in = nrm(x) <= k.R * (1 + 1e-12);
  if(in) c.check(nrm(got) <= k.R * (1 + 1e-12), "left the domain", mc::fmt("distance %.17g, boundary %g", nrm(got), k.R));
  if(!amb) for(int d = 0; d < D; ++d) c.check(fabs(got[d] - y[d]) <= 1e-11 * (k.R + fabs(m * a[d])), "displacement", mc::fmt("component %d: %.15g want %.15g", d, got[d], y[d]));
  c.check(b[0].mass() == was.mass() && b[0].id() == was.id(), "other fields", "mass or id");
  r = nrm(got);
  double S = k.R * (k.hp && prof == "constant" ? .8 : 1), rho = 2.5 / density_profiles::spherical_density_profile(0) * density_profiles::spherical_density_profile(r / S);
  double h = ngb ? pow(20. * b[0].mass() / rho / vol(1), 1. / D) : 1.5 * kernels::kernel_width * pow(b[0].mass() / rho, 1. / D);
  if(!(rho > 0)) h = S;
  c.check(fabs(b[0].getDensity() - rho) <= 1e-12 * 2.5 && fabs(b[0].radius() - h) <= 1e-12 * h, "profile", mc::fmt("density %.15g want %.15g, smoothing length %.15g want %.15g", b[0].getDensity(), rho, b[0].radius(), h));
  wvt::wvt_set_density(b[0]);
  h = !(rho > 0) ? S : 1.5 * kernels::kernel_width * pow(b[0].mass() / rho, 1. / D);
  c.check(fabs(b[0].getDensity() - rho) <= 1e-12 * 2.5 && (ngb || fabs(b[0].radius() - h) <= 1e-12 * h) && std::isfinite(b[0].radius()), "final profile", mc::fmt("density %.15g want %.15g, smoothing length %.15g want %.15g", b[0].getDensity(), rho, b[0].radius(), h));
  point_t g2 = b[0].coordinates();
  for(int d = 0; d < D; ++d) c.check(g2[d] == g[d], "final profile moved the particle", "");
  return mc::hd(mc::hd(5, got[0]), h);
}
static void go(mc::Ctx & c) {
  bool T = c.thorough;
  set("sph_kernel", "\"wendland c4\""); kernels::select();
  auto pl = places();
  std::vector<K> ks;
  for(auto m : {"arth", "diehl"}) for(auto b : {"reflective", "frozen", "none"}) for(double R : {1., 2.5}) for(double h : {.35, .9, 2.2}) for(int hp = 0; hp < 4; ++hp) ks.push_back({m, b, R, h, hp});
  for(int n = 1; n <= (T ? 4 : 3); ++n) for(auto & sub : subsets(pl.size(), n)) {
    if(!T && n == 3 && D == 3 && (sub[0] + sub[1] + sub[2]) % 2) continue;
    if(!c.want([&] { string s = mc::fmt("%dD accelerations of places", D); for(int i : sub) s += mc::fmt(" %d", i); return s; })) continue;
    std::vector<R3> s;
    for(int i : sub) s.push_back(pl[i]);
    for(auto & k : ks) { c.outcome(accel(c, s, k)); c.exec(); }
  }
  // two particles at the same place
  for(auto & k : ks) for(size_t i = 0; i < pl.size(); ++i) if(c.want([&] { return mc::fmt("%dD twice at place %zu %s %s %g %g %d", D, i, k.meth.c_str(), k.bound.c_str(), k.R, k.h, k.hp); })) { c.outcome(accel(c, {pl[i], pl[i], pl[(i + 1) % pl.size()]}, k)); c.exec(); }
  for(size_t i = 0; i < pl.size(); ++i) for(auto b : {"reflective", "frozen"}) for(int hp = 0; hp < 2; ++hp) for(auto prof : {"constant", "parabolic"})
    if(c.want([&] { return mc::fmt("%dD displacement from place %zu %s profile %s %d", D, i, b, prof, hp); })) {
      for(double a : {0., 1e-6, .01, .3, 1., 7., 1e3, 1e6}) for(int ad = 0; ad < 4; ++ad) for(double mu : {1e-3, .1, 1.}) for(int it : {0, 1, 5, 6, 7, 8, 9}) for(int ngb = 0; ngb < 2; ++ngb) for(double R : {1., 2.5}) { c.outcome(move(c, pl[i], K{"arth", b, R, .3, hp}, a, ad, mu, it, 5, it == 9 ? 4 : 3, prof, ngb)); c.exec(); }
    }
  // smoothing lengths: total volume; convergence
  for(int n = 1; n <= 4; ++n) for(double ngb : {1., 20., 120.}) for(double R : {1., 2.5}) for(int hp = 0; hp < 3; ++hp)
    if(c.want([&] { return mc::fmt("%dD smoothing lengths of %d particles, %g neighbours, boundary %g pattern %d", D, n, ngb, R, hp); })) {
      K k{"diehl", "reflective", R, .4, hp};
      pickw(k);
      set("wvt_ngb", ngb);
      std::vector<R3> s(pl.begin(), pl.begin() + n);
      auto b = make(s, k), w = b;
      wvt::compute_smoothinglength_wvt(b);
      double v = 0;
      for(int i = 0; i < n; ++i) { v += vol(b[i].radius()); c.check(fabs(b[i].radius() * w[0].radius() - w[i].radius() * b[0].radius()) <= 1e-13 * w[i].radius() * b[0].radius(), "smoothing lengths not scaled by one factor", mc::fmt("%d", i)); }
      c.check(fabs(v - ngb * vol(R)) <= 1e-12 * v, "smoothing volume", mc::fmt("%.15g want %.15g", v, ngb * vol(R)));
      c.exec();
      // every number of particles that still move, around every threshold
      for(double lim : {1., 25., 50., 60., 100., 101.}) for(int mv = 0; mv <= n; ++mv) for(double f : {.999, 1.001, 5.}) {
        set("wvt_convergence_point", lim); set("wvt_mu", .01);
        for(int i = 0; i < n; ++i) { double t = f * .001 * pow(1 / ngb, 1. / D) * b[i].radius() / .01, a[3] = {i % 2 ? t : -t, 0, 0}; if(i >= mv) a[0] *= .5 / f; b[i].setAcceleration(vec(a)); }
        int moving = f > 1 ? mv : 0;
        wvt_basic::wvt_converged = false;
        wvt::check_convergence_wvt(b);
        c.check(wvt_basic::wvt_converged == (100. * moving / n < lim), "convergence", mc::fmt("%d of %d move, threshold %g%%: %d", moving, n, lim, wvt_basic::wvt_converged));
        wvt_basic::wvt_converged = false;
        c.exec();
      }
      c.outcome(mc::hd(7, b[0].radius()));
    }
}
int main(int n, char ** a) { return mc::main_run(n, a, go, 16); }
