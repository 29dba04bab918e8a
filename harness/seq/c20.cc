// External forces: gradient of the potential, sums of selections.
#include "phys.h"
struct Par { double n, A, R, g, gam; string prof; double rim, ang, eps; int box; };
static const double BOX[2][3] = {{2, 1.6, 3}, {1, 4.2, 1.1}};
static void setp(const Par & p) {
  set("extforce_wall_powerindex", p.n); set("extforce_wall_steepness", p.A); set("sphere_radius", p.R); set("gravity_acceleration_constant", p.g);
  set("poly_gamma", p.gam); set("density_profile", "\"" + p.prof + "\""); set("mesa_rim_width", p.rim); set("rho_initial", 1.7); set("pressure_initial", .8);
  set("box_length", BOX[p.box][0]); set("box_width", BOX[p.box][1]); set("box_height", BOX[p.box][2]);
  set("gravitational_constant", .7); set("orbital_separation", 1.9 + p.eps); set("mass_neutron_star", 1.3); set("mass_white_dwarf", .6 + p.eps);
  set("zero_potential_poison_value", 3.25); set("airfoil_size", 2 - p.eps); set("airfoil_thickness", .2); set("airfoil_camber", .1 - p.eps); set("airfoil_anchor_x", -1. + p.eps); set("airfoil_anchor_y", p.eps); set("airfoil_attack_angle", p.ang);
  if(p.prof == "from file") {
    string f = string(getenv("MC_SCRATCH") ? getenv("MC_SCRATCH") : "/tmp") + mc::fmt("/prof.%d", getpid());
    FILE * o = fopen(f.c_str(), "w");
    fprintf(o, "# r rho m drhodr\n");
    for(int i = 0; i <= 60; ++i) { double r = i / 50.; fprintf(o, "%.17g %.17g %.17g %.17g\n", r, 2 - r * r + .3 * r * r * r, r * r, -2 * r + .9 * r * r); }
    fclose(o);
    set("input_density_file", "\"" + f + "\"");
  }
}
static std::vector<double> axis(bool T) { std::vector<double> v = {-2.3, -1.45, -1.051, -.97, -.6, -.2, .013, .3, .551, .94, 1.03, 1.42, 2.1}; if(T && D < 3) for(int i = -40; i < 40; ++i) v.push_back(.057 * i + .0031); return v; }
static std::vector<point_t> points(bool T) {
  auto a = axis(T);
  std::vector<point_t> r;
  int n = a.size(), t = n;
  for(int d = 1; d < D; ++d) t *= n;
  for(int i = 0; i < t; ++i) { point_t p = 0.; int k = i; for(int d = 0; d < D; ++d, k /= n) p[d] = a[k % n]; r.push_back(p); }
  return r;
}
static point_t acc(const point_t & p) { body b; b.set_coordinates(p); b.setVelocity(0.); b.set_mass(1); return external_force::acceleration(b); }
// is the potential smooth within s of p (so that its difference quotient is its derivative)
static bool smooth(const Par & q, string tok, const point_t & p, double s) {
  for(auto & ch : tok) ch = tolower(ch);
  double r = 0;
  for(int d = 0; d < D; ++d) r += p[d] * p[d];
  r = sqrt(r);
  auto near = [&](double x, double y) { return fabs(x - y) <= s; };
  if(tok.find("all") != tok.npos) { // walls, spherical wall
    if(tok.find("sph") != tok.npos) { if(near(r, q.R)) return false; }
    else for(int d = 0; d < D; ++d) if(near(fabs(p[d]), .5 * BOX[q.box][d])) return false;
  }
  if(tok.find("density") != tok.npos) {
    if(near(r, q.R) || r < s || (r > .97 * q.R && r < 1.03 * q.R)) return false;
    if(q.prof == "mesa" && near(r, q.R * (1 - q.rim))) return false;
    if(q.prof == "from file" && r > 1.15 * q.R) return false; // end of the table
  }
  if(tok.find("irfoil") != tok.npos) {
    double al = q.ang * M_PI / 180, x1 = p[0] + 1 - q.eps, y1 = (D > 1 ? p[1] : 0) - q.eps, S = 2 - q.eps;
    double x = x1 * cos(al) + y1 * sin(al), y = -x1 * sin(al) + y1 * cos(al);
    if(near(x, -.02 * S) || near(x, S) || near(x, 1.02 * S) || near(fabs(y), 1.) || x > S - s) return false;
  }
  if(tok == "orbit") { double d2 = (p[0] - 1.9 - q.eps) * (p[0] - 1.9 - q.eps); for(int d = 1; d < D; ++d) d2 += p[d] * p[d]; if(d2 < .01) return false; }
  return true;
}
static void gradient(mc::Ctx & c, const Par & q, const string & tok) {
  setp(q);
  external_force::select(tok);
  uint64_t hh = mc::hs(1, tok);
  const double h = 1e-3;
  int used = 0;
  for(auto & p : points(c.thorough)) {
    point_t a = acc(p);
    hh = mc::hd(hh, a[0]);
    for(int d = 0; d < D; ++d) if(!c.check(std::isfinite(a[d]) || !smooth(q, tok, p, 3 * h), "force not finite", mc::fmt("%s at x=%g: comp %d %g", tok.c_str(), p[0], d, a[d]))) return;
    if(!smooth(q, tok, p, 4 * h)) continue;
    ++used;
    for(int d = 0; d < D; ++d) {
      double f[4], A = fabs(a[d]), P = 0;
      static const double S[4] = {-1, -.5, .5, 1};
      for(int k = 0; k < 4; ++k) { point_t r = p; r[d] += h * S[k]; f[k] = external_force::potential(r); A = std::max(A, fabs(acc(r)[d])); P = std::max(P, fabs(f[k])); }
      double g = (8 * (f[2] - f[1]) - (f[3] - f[0])) / (6 * h), w = -a[d];
      c.check(fabs(g - w) <= 1e-5 * A + 1e-13 * P / h + .5 * fabs(g - (f[2] - f[1]) / h), "force is not minus the gradient of its potential",
        mc::fmt("%s comp %d at (%.6g,%.6g,%.6g): force %.10g, gradient of the potential %.10g", tok.c_str(), d, p[0], D > 1 ? p[1 % D] : 0., D > 2 ? p[2 % D] : 0., a[d], g));
    }
  }
  c.check(used > 10 || D < 3, "harness", "too few points");
  c.outcome(hh);
  c.exec();
}
static void sums(mc::Ctx & c, const Par & q, const std::vector<string> & tok, const std::vector<int> & prog) {
  setp(q);
  std::vector<point_t> P;
  { auto all = points(false); for(size_t i = 0; i < all.size(); i += D == 3 ? 41 : D == 2 ? 5 : 1) P.push_back(all[i]); }
  std::vector<point_t> A(P.size(), point_t(0.));
  std::vector<double> F(P.size(), 0), SA(P.size(), 0), SF(P.size(), 0);
  string list;
  for(int k : prog) {
    external_force::select(tok[k]);
    for(size_t i = 0; i < P.size(); ++i) { point_t a = acc(P[i]); double f = external_force::potential(P[i]); for(int d = 0; d < D; ++d) SA[i] += fabs(a[d]); A[i] += a; F[i] += f; SF[i] += fabs(f); }
    list += (list.size() ? "," : "") + tok[k];
  }
  uint64_t hh = 2;
  for(int rep = 0; rep < 2; ++rep) { // selecting again replaces
    external_force::select(list);
    for(size_t i = 0; i < P.size(); ++i) {
      point_t a = acc(P[i]);
      double f = external_force::potential(P[i]), e = 0;
      for(int d = 0; d < D; ++d) e += fabs(a[d] - A[i][d]);
      c.check(e <= 1e-12 * SA[i] || (e != e && SA[i] != SA[i]), "selection is not the sum of its parts", mc::fmt("acceleration of '%s' at x=%g differs by %g (selection %d)", list.c_str(), P[i][0], e, rep));
      c.check(fabs(f - F[i]) <= 1e-12 * SF[i] || (f != f && F[i] != F[i]), "selection is not the sum of its parts", mc::fmt("potential of '%s' at x=%g: %.17g, sum of parts %.17g (selection %d)", list.c_str(), P[i][0], f, F[i], rep));
      hh = mc::hd(mc::hd(hh, f), a[0]);
    }
  }
  for(auto z : {"none", "zero", "NONE"}) {
    external_force::select(z);
    for(auto & p : P) { point_t a = acc(p); bool ok = external_force::potential(p) == 0; for(int d = 0; d < D; ++d) ok &= a[d] == 0; c.check(ok, "no selection is not zero", mc::fmt("'%s' after '%s' at x=%g", z, list.c_str(), p[0])); }
  }
  c.outcome(hh);
  c.exec();
}
static void go(mc::Ctx & c) {
  bool T = c.thorough;
  std::vector<string> tok = {"gravity", "spherical wall", "walls:x", "spherical density support", "poison"};
  if(D > 1) for(auto s : {"walls:y", "walls:xy", "walls:yx", "airfoil", "orbit"}) tok.push_back(s);
  if(D > 2) for(auto s : {"walls:z", "walls:xyz", "walls:zx"}) tok.push_back(s);
  std::vector<string> one = tok;
  for(auto s : {"GRAVITY", "Spherical Wall", "Walls:X", "none", "zero"}) one.push_back(s);
  if(D > 1) for(auto s : {"WALLS:XY", "AirFoil", "ORBIT"}) one.push_back(s);
  std::vector<Par> par;
  for(double n : {2., 5., 3.5, 2.25}) for(double A : {1., 1e12}) for(double R : {1., .7}) for(int box : {0, 1}) par.push_back({n, A, R, n - 3, 5. / 3, "parabolic", .2, 10 * n - 20, box * .125, box});
  for(auto & t : one) for(auto & q : par) if(c.want([&] { return mc::fmt("%dD gradient of '%s', wall power %g x %g, radius %g box %d angle %g", D, t.c_str(), q.n, q.A, q.R, q.box, q.ang); })) c.isolated([&] { gradient(c, q, t); });
  for(double gam : {5. / 3, 1.4, 2., 3.}) for(auto prof : {"constant", "parabolic", "mesa", "from file"}) for(double rim : {.1, .5, .9}) for(double R : {1., .45, 2.}) {
    if(string(prof) != "mesa" && rim > .1) continue;
    Par q{4, 10, R, 1, gam, prof, rim, 0, 0, 0};
    if(c.want([&] { return mc::fmt("%dD gradient of 'spherical density support', profile %s rim %g gamma %g radius %g", D, prof, rim, gam, R); })) c.isolated([&] { gradient(c, q, "spherical density support"); });
  }
  int L = T ? 4 : 3;
  std::vector<int> prog;
  std::function<void()> rec = [&] {
    if(prog.size()) for(int b = 0; b < (T ? 4 : 1); ++b) {
      const Par & q = par[b * 7];
      if(c.want([&] { string d = mc::fmt("%dD parameters %d selection", D, b); for(int k : prog) d += " '" + tok[k] + "'"; return d; })) c.isolated([&] { sums(c, q, tok, prog); });
    }
    if((int)prog.size() == L) return;
    for(int k = 0; k < (int)tok.size(); ++k) { prog.push_back(k); rec(); prog.pop_back(); }
  };
  rec();
  // relaxation drag opposes the velocity with the configured strength
  for(double be : {0., 1e-6, .5}) for(double ga : {0., .3}) if(c.want([&] { return mc::fmt("%dD relaxation drag %g %g", D, be, ga); })) c.isolated([&] {
    set("relaxation_beta", be); set("relaxation_gamma", ga);
    for(auto & v : points(false)) {
      point_t a = external_force::acceleration_drag(v);
      double v2 = 0;
      for(int d = 0; d < D; ++d) v2 += v[d] * v[d];
      for(int d = 0; d < D; ++d) c.check(fabs(a[d] + (be + ga * v2) * v[d]) <= 1e-12 * (be + ga * v2) * sqrt(v2), "relaxation drag", mc::fmt("v=%g comp %d: %g", v[0], d, a[d]));
    }
    c.exec();
  });
}
int main(int n, char ** a) { return mc::main_run(n, a, go, 8); }
