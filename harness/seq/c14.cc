// Kernels: mass, support, sign, monotonicity, scaling, gradient = derivative; one executable per dimension (EXT_GDIMENSION).
#include "mc.h"
#include "kernels.h"
using std::string;
using namespace kernels;
static const int D = gdimension;
struct K { string name; double si; };
static double surf() { return D == 1 ? 2. : D == 2 ? 2. * M_PI : 4. * M_PI; }
static const double GX[8] = {-0.9602898564975363, -0.7966664774136267, -0.5255324099163290, -0.1834346424956498, 0.1834346424956498, 0.5255324099163290, 0.7966664774136267, 0.9602898564975363};
static const double GW[8] = {0.1012285362903763, 0.2223810344533745, 0.3137066458778873, 0.3626837833783620, 0.3626837833783620, 0.3137066458778873, 0.2223810344533745, 0.1012285362903763};
template<class F> static double gl(double a, double b, F f) { double s = 0; for(int i = 0; i < 8; ++i) s += GW[i] * f(.5 * (a + b) + .5 * (b - a) * GX[i]); return s * .5 * (b - a); }
static point_t along(double r, int axis = 0, double sg = 1) { point_t p = 0.0; p[axis] = sg * r; return p; }
// literature shapes as functions of q = r/h, up to normalisation
static double shape(const string & n, double q, double si) {
  if(q >= 1) return 0;
  auto p = [](double x, int k) { return x > 0 ? pow(x, k) : 0.; };
  if(n == "cubic spline") return p(1 - q, 3) - 4 * p(.5 - q, 3);
  if(n == "quintic spline") return p(1 - q, 5) - 6 * p(2. / 3 - q, 5) + 15 * p(1. / 3 - q, 5);
  if(n == "gaussian") return exp(-9 * q * q);
  if(n == "super gaussian") return exp(-9 * q * q) * (D / 2. + 1 - 9 * q * q);
  if(n == "sinc ker") return q == 0 ? 1 : pow(sin(M_PI * q) / (M_PI * q), si);
  if(n == "wendland c2") return D == 1 ? p(1 - q, 3) * (1 + 3 * q) : p(1 - q, 4) * (1 + 4 * q);
  if(n == "wendland c4") return D == 1 ? p(1 - q, 5) * (1 + 5 * q + 8 * q * q) : p(1 - q, 6) * (1 + 6 * q + 35. / 3 * q * q);
  return D == 1 ? p(1 - q, 7) * (1 + 7 * q + 19 * q * q + 21 * q * q * q) : p(1 - q, 8) * (1 + 8 * q + 25 * q * q + 32 * q * q * q);
}
static void pick(const K & k) {
  param::set_param("sph_sinc_index", mc::fmt("%.17g", k.si).c_str());
  param::set_param("sph_kernel", ("\"" + k.name + "\"").c_str());
  select();
}
static std::vector<K> all() {
  std::vector<K> v;
  for(auto s : {"cubic spline", "quintic spline", "gaussian", "super gaussian", "wendland c2", "wendland c4", "wendland c6"}) v.push_back({s, 4});
  for(double si : {3., 4., 5., 6., 7., 8., 9., 10., 11., 12., 3.5, 4.25, 6.75, 9.5}) v.push_back({"sinc ker", si});
  return v;
}
static uint64_t one(mc::Ctx & c, const K & k, double h, int N) {
  string id = k.name + (k.name == "sinc ker" ? mc::fmt(" %g", k.si) : string());
  auto W = [&](double r) { return sph_kernel_function(r, h); };
  auto g = [&](double r) { return sph_kernel_gradient(along(r), h)[0]; };
  bool trunc = k.name == "gaussian" || k.name == "super gaussian", sinc = k.name == "sinc ker";
  double W0 = W(0.), w0 = W0 * pow(h, D);
  c.check(std::isfinite(W0) && W0 > 0, id + ": centre", mc::fmt("h=%g W(0)=%g", h, W0));
  // integral over the support; break points of the splines are multiples of h/6
  double I = 0;
  for(int i = 0; i < N; ++i) I += gl(h * i / N, h * (i + 1) / N, [&](double r) { return W(r) * surf() * (D == 1 ? 1 : D == 2 ? r : r * r); });
  c.check(fabs(I - 1) < (sinc ? 2e-4 : 1e-11), id + ": integral", mc::fmt("h=%g integral-1=%g", h, I - 1));
  uint64_t hh = 7;
  double prev = W0;
  for(int i = 0; i <= N; ++i) {
    double r = h * i / N;
    if(i == N) r = std::nextafter(h, 0.);
    double w = W(r), s = shape(k.name, r / h, k.si) / shape(k.name, 0, k.si);
    hh = mc::hd(hh, w * pow(h, D));
    c.check(fabs(w / W0 - s) < 1e-12, id + ": shape", mc::fmt("h=%g r=%.17g W/W0=%.17g want %.17g", h, r, w / W0, s));
    if(k.name != "super gaussian") {
      c.check(w >= 0, id + ": negative", mc::fmt("h=%g r=%.17g W=%g", h, r, w));
      c.check(w <= prev + 4e-16 * W0, id + ": increasing", mc::fmt("h=%g r=%.17g W=%.17g > %.17g", h, r, w, prev));
      c.check(g(r) <= 0, id + ": gradient sign", mc::fmt("h=%g r=%.17g dW=%g", h, r, g(r)));
    }
    prev = w;
    // gradient integrates to the kernel difference on each piece
    if(i + 1 <= N) {
      double r2 = i + 1 == N ? std::nextafter(h, 0.) : h * (i + 1) / N;
      double d = gl(r, r2, g);
      c.check(fabs(d - (W(r2) - w)) < 3e-14 * W0 + (sinc && i + 1 == N ? 1e-5 : 1e-9) * fabs(W(r2) - w), id + ": gradient is not the derivative", mc::fmt("h=%g on [%.17g,%.17g] integral of gradient %.17g, kernel difference %.17g", h, r, r2, d, W(r2) - w));
    }
    // direction, antisymmetry: all lattice directions
    double gr = g(r);
    int n = D == 1 ? 3 : D == 2 ? 9 : 27;
    for(int a = 0; a < n; ++a) {
      int e[3] = {a % 3 - 1, a / 3 % 3 - 1, a / 9 % 3 - 1};
      double m = 0;
      for(int d = 0; d < D; ++d) m += e[d] * e[d];
      if(m == 0) continue;
      m = sqrt(m);
      point_t p = 0.0, q = 0.0;
      for(int d = 0; d < D; ++d) p[d] = e[d] * (r / m), q[d] = -p[d];
      double rr = flecsi::magnitude(p);
      point_t v = sph_kernel_gradient(p, h), u = sph_kernel_gradient(q, h);
      double gp = sph_kernel_gradient(along(rr), h)[0];
      for(int d = 0; d < D; ++d) {
        c.check(u[d] == -v[d], id + ": gradient not odd", mc::fmt("h=%g r=%.17g", h, r));
        c.check(fabs(v[d] - gp * e[d] / m) <= 1e-12 * (fabs(gp) + w0 / pow(h, D + 1) * 1e-3), id + ": gradient direction", mc::fmt("h=%g r=%.17g dir %d %d %d comp %d: %.17g want %.17g", h, r, e[0], e[1], e[2], d, v[d], gp * e[d] / m));
      }
    }
    (void)gr;
    // scaling, exact for powers of two
    for(double l : {.5, 2., 1024.}) {
      double a = sph_kernel_function(l * r, l * h) * pow(l, D), b = sph_kernel_gradient(along(l * r), l * h)[0] * pow(l, D + 1);
      c.check(fabs(a - w) <= 1e-13 * W0, id + ": kernel scaling", mc::fmt("h=%g r=%.17g factor %g: %.17g vs %.17g", h, r, l, a, w));
      c.check(fabs(b - gr) <= 1e-13 * W0 / h * 10, id + ": gradient scaling", mc::fmt("h=%g r=%.17g factor %g: %.17g vs %.17g", h, r, l, b, gr));
    }
  }
  // zero gradient at the centre; very small separations stay finite
  point_t z = sph_kernel_gradient(along(0.), h);
  for(int d = 0; d < D; ++d) c.check(z[d] == 0, id + ": gradient at zero", mc::fmt("h=%g %g", h, z[d]));
  for(double r : {1e-100, 1e-50, 1e-30, 1e-24, 1e-20, 1e-13, 1e-12, 1e-11, 1e-7, 3e-7, 1e-6, 3e-6, 1e-5, 1e-4}) {
    r *= h;
    c.check(fabs(W(r) - W0) <= 1e-6 * W0, id + ": near centre", mc::fmt("h=%g r=%g W=%.17g W0=%.17g", h, r, W(r), W0));
    double s2 = 2 * (shape(k.name, 1e-3, k.si) / shape(k.name, 0, k.si) - 1) / 1e-6; // curvature at the centre
    double want = s2 * W0 / h * (r / h);
    c.check(fabs(g(r) - want) <= .02 * fabs(want) + 1e-13 * W0 / h, id + ": gradient near centre", mc::fmt("h=%g r=%g gradient %g want about %g", h, r, g(r), want));
  }
  // support
  bool exact = 3. * h / h == 3.;
  std::vector<double> far = {h * (1 + 1e-15), h * 1.0000001, h * 1.01, 1.5 * h, 2 * h, 3 * h, 10 * h, 1e6 * h, 1e20 * h};
  if(exact || !trunc) far.push_back(h), far.push_back(std::nextafter(h, 1e300));
  for(double r : far) {
    c.check(fabs(W(r)) <= (r <= h * (1 + 1e-14) && !trunc ? 1e-30 * W0 : 0.), id + ": outside the support", mc::fmt("h=%g r=%.17g (r/h-1=%g) W=%g", h, r, r / h - 1, W(r)));
    for(int d = 0; d < D; ++d) for(double sg : {1., -1.}) {
      point_t v = sph_kernel_gradient(along(r, d, sg), h);
      for(int e = 0; e < D; ++e) c.check(fabs(v[e]) <= (r <= h * (1 + 1e-14) && !trunc ? 1e-20 * W0 / h : 0.), id + ": gradient outside the support", mc::fmt("h=%g r=%.17g grad=%g", h, r, v[e]));
    }
  }
  return hh;
}
static void go(mc::Ctx & c) {
  auto ks = all();
  bool T = c.thorough;
  int N = T ? 3000 : 600;
  for(auto & k : ks) for(double h : {1., .5, 2., 1.25, 3., .1, 7.3e-9, 1e-3, 42., 6.96e10}) if(c.want([&] { return mc::fmt("%dD %s index %g h=%g", D, k.name.c_str(), k.si, h); })) {
    pick(k);
    c.outcome(one(c, k, h, N));
    c.exec();
  }
  // selection depends only on the last choice
  for(auto & a : ks) for(auto & b : ks) if(c.want([&] { return mc::fmt("%dD select %s %g, then %s %g", D, a.name.c_str(), a.si, b.name.c_str(), b.si); })) {
    pick(a);
    double x = sph_kernel_function(.1, 1.);
    pick(b);
    c.outcome(mc::mix(one(c, b, 1., 60), 1));
    pick(a);
    c.check(sph_kernel_function(.1, 1.) == x, a.name + ": selection", mc::fmt("%.17g, after selecting another and back %.17g", x, sph_kernel_function(.1, 1.)));
    c.exec();
  }
}
int main(int n, char ** a) { return mc::main_run(n, a, go, 1); }
