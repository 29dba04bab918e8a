// Lattice generators: announced number, distinct places inside the domain, spacing, untouched neighbours in the arrays.
#include "mc.h"
#include "default_physics.h"
#include "lattice.h"
using std::string;
static const int D = gdimension;
struct Case { int lat, dom; double lo[3], len[3], sep; int64_t pos; };
static string str(const Case & k) { return mc::fmt("%dD lattice %d domain %d box (%g,%g,%g)+(%g,%g,%g) spacing %g offset %ld", D, k.lat, k.dom, k.lo[0], k.lo[1], k.lo[2], k.len[0], k.len[1], k.len[2], k.sep, (long)k.pos); }
static void one(mc::Ctx & c, const Case & k) {
  param::set_param("lattice_type", mc::fmt("%d", k.lat));
  if(k.lat > 2) { param::set_param("density_profile", k.pos % 2 ? "\"parabolic\"" : "\"constant\""); density_profiles::select(); }
  particle_lattice::select();
  point_t lo = 0., hi = 0.;
  for(int d = 0; d < D; ++d) lo[d] = k.lo[d], hi[d] = k.lo[d] + k.len[d];
  int64_t n = particle_lattice::count(k.lat, k.dom, lo, hi, k.sep, k.pos), n0 = particle_lattice::count(k.lat, k.dom, lo, hi, k.sep, 0);
  c.check(n == n0, "count depends on the offset", mc::fmt("%ld, from 0 %ld", (long)n, (long)n0));
  if(!c.check(n >= 0 && n < 2000000, "count", mc::fmt("%ld", (long)n))) return;
  const double MARK = -77777.25;
  std::vector<double> x(k.pos + n + 4, MARK), y(x), z(x);
  int64_t g = particle_lattice::generate(k.lat, k.dom, lo, hi, k.sep, k.pos, x.data(), y.data(), z.data());
  c.check(g == n, "announced number differs", mc::fmt("announced %ld placed %ld", (long)n, (long)g));
  for(int64_t i = 0; i < (int64_t)x.size(); ++i) if(i < k.pos || i >= k.pos + n) c.check(x[i] == MARK && y[i] == MARK && z[i] == MARK, "other particles touched", mc::fmt("entry %ld", (long)i));
  double W = k.len[0], tol = 1.0001e-6 * W, R = W, mid[3];
  for(int d = 0; d < D; ++d) R = std::min(R, k.len[d]), mid[d] = k.lo[d] + .5 * k.len[d];
  R *= .5;
  uint64_t hh = n;
  std::vector<std::array<double, 3>> p;
  for(int64_t i = k.pos; i < k.pos + n; ++i) {
    double X[3] = {x[i], y[i], z[i]}, r2 = 0;
    for(int d = 0; d < 3; ++d) {
      hh = mc::hd(hh, X[d]);
      if(d >= D) { c.check(X[d] == 0, "coordinate beyond the dimension set", mc::fmt("%g", X[d])); continue; }
      c.check(X[d] >= k.lo[d] - tol && X[d] < k.lo[d] + k.len[d] + (k.lat > 2 ? tol : 0), "outside the domain", mc::fmt("particle %ld comp %d: %.17g in [%g,%g)", (long)i, d, X[d], k.lo[d], k.lo[d] + k.len[d]));
      r2 += (X[d] - mid[d]) * (X[d] - mid[d]);
    }
    if(k.dom == 1 && D > 1) c.check(sqrt(r2) <= R + 2 * tol, "outside the sphere", mc::fmt("particle %ld at %.10g from the centre, radius %g", (long)i, sqrt(r2), R));
    p.push_back({X[0], X[1], X[2]});
  }
  // nearest neighbours, by cells of the spacing
  std::sort(p.begin(), p.end());
  double best = 1e300;
  std::vector<double> near(p.size(), 1e300);
  for(size_t i = 0; i < p.size(); ++i) for(size_t j = i + 1; j < p.size() && p[j][0] - p[i][0] <= 1.01 * k.sep; ++j) {
    double d2 = 0;
    for(int d = 0; d < 3; ++d) d2 += (p[i][d] - p[j][d]) * (p[i][d] - p[j][d]);
    double e = sqrt(d2);
    near[i] = std::min(near[i], e); near[j] = std::min(near[j], e); best = std::min(best, e);
  }
  c.check(best > 1e-9 * k.sep, "two particles in one place", mc::fmt("distance %g", best));
  if(k.lat < 3) {
    c.check(best >= k.sep * (1 - 1e-9), "particles closer than the spacing", mc::fmt("%.12g, spacing %g", best, k.sep));
    // every particle has a neighbour at the spacing unless the domain is too thin there
    bool room = true;
    for(int d = 0; d < D; ++d) room &= k.len[d] > 2.5 * k.sep;
    if(room && k.dom == 0) for(size_t i = 0; i < p.size(); ++i) if(!c.check(near[i] <= k.sep * (1 + 1e-9), "no neighbour at the spacing", mc::fmt("particle at (%g,%g,%g): %g, spacing %g", p[i][0], p[i][1], p[i][2], near[i], k.sep))) break;
    // the lattice fills the domain: the number is that of its density within the surface layer
    if(room) {
      double V = 1, A = 0, cell = D == 1 ? 1 : D == 2 ? (k.lat ? sqrt(3.) / 2 : 1) : k.lat ? 1 / sqrt(2.) : 1;
      if(k.dom == 1 && D > 1) { V = D == 2 ? M_PI * R * R : 4. / 3 * M_PI * R * R * R; A = D == 2 ? 2 * M_PI * R : 4 * M_PI * R * R; }
      else { for(int d = 0; d < D; ++d) { V *= k.len[d]; double a = 2; for(int e = 0; e < D; ++e) if(e != d) a *= k.len[e]; A += a; } }
      double want = V / (cell * pow(k.sep, D)), slack = A / pow(k.sep, D - 1) * .9 / cell + 2;
      c.check(fabs(n - want) <= slack, "lattice does not fill the domain", mc::fmt("%ld particles, volume holds %.1f", (long)n, want));
    }
  }
  if(k.lat < 4) c.outcome(hh);
  c.exec();
}
static void go(mc::Ctx & c) {
  bool T = c.thorough;
  std::vector<int> lats = {0};
  if(D == 2) lats = {0, 1, 2};
  if(D == 3) lats = {0, 1, 2, 3, 4};
  static const double LO[][3] = {{-.5, -.5, -.5}, {0, 0, 0}, {-3, 1, 7.5}};
  std::vector<std::array<double, 3>> LEN = {{1, 1, 1}, {2, 1, 1}, {1, 1.7, .8}, {1, 1, 3}, {.3, 1, .6}};
  std::vector<double> N;
  for(int k = 1; k <= (D == 3 ? (T ? 20 : 10) : D == 2 ? (T ? 60 : 24) : (T ? 1000 : 200)); ++k) { N.push_back(k); N.push_back(k + .5); if(k % 3 == 0) N.push_back(k + 1. / 3); if(k % 3 == 1) N.push_back(k + .1); if(k % 5 == 2) N.push_back(k + .6); if(k % 5 == 4) N.push_back(k + .85); if(k % 4 == 1) N.push_back(k + 1e-7); if(k % 4 == 2) N.push_back(k - 1e-3); }
  for(int l : lats) for(int dom : {0, 1}) for(auto & lo : LO) for(auto & len : LEN) for(double n : N) for(int64_t pos : {0L, 7L}) {
    Case k{l, dom, {lo[0], lo[1], lo[2]}, {len[0], len[1], len[2]}, len[0] / n, pos};
    if(l > 2) { // spherical arrangements: a cube around the origin
      if(&len != &LEN[0] && &len != &LEN[1]) continue;
      if(&lo != &LO[0] || dom == 0) continue;
      for(int d = 0; d < 3; ++d) k.len[d] = len[0], k.lo[d] = -.5 * len[0];
      if(n > 8) continue;
    }
    if(c.want([&] { return str(k); })) one(c, k);
  }
}
int main(int n, char ** a) { return mc::main_run(n, a, go, 4); }
