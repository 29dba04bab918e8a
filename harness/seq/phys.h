// Small particle systems for the physics harnesses; one executable per dimension (EXT_GDIMENSION).
#pragma once
#include "mc.h"
#include "default_physics.h"
using std::string;
static const int D = gdimension;
struct Pt { double x[3], v[3], w[3], m, h, rho, P, u, c, al; };
struct Cfg { string kernel, visc; double alpha, beta, eps; };
static void set(const char * n, const string & v) { param::set_param(n, v); }
static void set(const char * n, double v) { param::set_param(n, mc::fmt("%.17g", v)); }
static void pick(const Cfg & k) {
  set("sph_kernel", "\"" + k.kernel + "\"");
  set("sph_viscosity", "\"" + k.visc + "\"");
  set("sph_viscosity_alpha", k.alpha); set("sph_viscosity_beta", k.beta); set("sph_viscosity_epsilon", k.eps);
  kernels::select(); viscosity::select(); external_force::select("none");
}
static point_t vec(const double * x) { point_t p = 0.0; for(int d = 0; d < D; ++d) p[d] = x[d]; return p; }
static std::vector<body> build(const std::vector<Pt> & s) {
  std::vector<body> b(s.size());
  for(size_t i = 0; i < s.size(); ++i) {
    auto & p = s[i];
    b[i].set_id(i); b[i].set_mass(p.m); b[i].set_radius(p.h); b[i].set_coordinates(vec(p.x));
    b[i].setVelocity(vec(p.v)); b[i].setVelocityhalf(vec(p.w)); b[i].setDensity(p.rho); b[i].setPressure(p.P); b[i].setInternalenergy(p.u);
    b[i].setSoundspeed(p.c); b[i].setAlpha(p.al); b[i].setAcceleration(vec(p.v)); b[i].setGAcceleration(0.); b[i].setGPotential(0.); b[i].setDudt(99); b[i].setDedt(99);
    b[i].setDivergenceV(0); b[i].setDdivvdt(0); b[i].setTotalenergy(1); b[i].setElectronfraction(.5); b[i].setAdiabatic(1); b[i].setSignalspeed(p.c); b[i].setType(NORMAL);
  }
  return b;
}
static double dist(const Pt & a, const Pt & b) { double s = 0; for(int d = 0; d < D; ++d) s += (a.x[d] - b.x[d]) * (a.x[d] - b.x[d]); return sqrt(s); }
// neighbours as the search gives them: within the mean smoothing length, itself included; rev reverses the order, all adds particles out of reach
static std::vector<body *> nbs(std::vector<body> & b, const std::vector<Pt> & s, int a, bool rev = false, bool all = false) {
  std::vector<body *> r;
  for(size_t i = 0; i < s.size(); ++i) if(all || dist(s[a], s[i]) <= .5 * (s[a].h + s[i].h)) r.push_back(&b[i]);
  if(rev) std::reverse(r.begin(), r.end());
  return r;
}
// lattice of candidate positions (slightly irregular), side 3 (1D: 6)
static std::vector<std::array<double, 3>> sites() {
  std::vector<std::array<double, 3>> v;
  if(D == 1) { for(double x : {0., .3, .75, 1., 1.6, 2.3}) v.push_back({x, 0, 0}); }
  else if(D == 2) { for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) v.push_back({.5 * i + .07 * j, .45 * j - .05 * i * j, 0}); }
  else for(int i = 0; i < 2; ++i) for(int j = 0; j < 2; ++j) for(int k = 0; k < 2; ++k) v.push_back({.5 * i + .06 * j * k, .55 * j - .1 * i * k, .6 * k + .05 * i});
  return v;
}
static std::vector<std::vector<int>> subsets(int n, int k) {
  std::vector<std::vector<int>> r;
  std::vector<int> c(k);
  std::function<void(int, int)> rec = [&](int i, int f) { if(i == k) { r.push_back(c); return; } for(int j = f; j < n; ++j) { c[i] = j; rec(i + 1, j + 1); } };
  rec(0, 0);
  return r;
}
// attribute pattern number a of particle i
static Pt attr(const std::array<double, 3> & x, int i, int a) {
  Pt p{};
  static const double M[] = {1, 1, 2.5, .3, 1, 7}, H[] = {.9, 1.3, .7, 1.1, 2.}, R[] = {1, .5, 2, 3, .1}, PR[] = {1, .25, 4, 2, 0}, C[] = {1, .5, 2, 0, 3};
  uint64_t k = mc::mix(mc::mix(17, a), i);
  auto pickn = [&](int n) { k = mc::mix(k, 5); return (int)((k >> 20) % n); };
  bool same = a % 4 == 0; // equal particles
  if(same) k = mc::mix(23, a);
  p.m = M[pickn(6)]; p.h = H[pickn(5)]; p.rho = R[pickn(5)]; p.P = PR[pickn(5)]; p.c = C[pickn(5)]; p.u = 1 + .5 * pickn(3); p.al = .25 * pickn(5);
  k = mc::mix(mc::mix(29, a), i);
  for(int d = 0; d < 3; ++d) { p.x[d] = x[d]; p.v[d] = d < D ? pickn(5) - 2 : 0; p.w[d] = a % 3 == 0 ? p.v[d] : d < D ? .5 * (pickn(7) - 3) : 0; }
  if(a % 8 == 1) for(int d = 0; d < 3; ++d) p.v[d] = p.w[d] = d < D ? -x[d] : 0;      // converging
  if(a % 8 == 5) for(int d = 0; d < 3; ++d) p.v[d] = p.w[d] = d < D ? 2 * x[d] : 0;   // expanding
  return p;
}
static const std::vector<string> KER = {"wendland c4", "cubic spline", "quintic spline", "gaussian", "super gaussian", "sinc ker", "wendland c2", "wendland c6"};
