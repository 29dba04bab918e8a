// Every program of integration operations on states of three particles, against the map it stands for.
#include "phys.h"
struct F { std::vector<double> v; };
// every field of a particle, so that nothing else changes
static std::vector<double> all(body & b) {
  std::vector<double> r;
  auto vecs = [&](point_t p) { for(int d = 0; d < D; ++d) r.push_back(p[d]); };
  vecs(b.coordinates()); vecs(b.getVelocity()); vecs(b.getVelocityhalf()); vecs(b.getAcceleration()); vecs(b.getGAcceleration());
  for(double x : {b.getInternalenergy(), b.getTotalenergy(), b.getAdiabatic(), b.mass(), b.radius(), b.getDensity(), b.getPressure(), b.getSoundspeed(), b.getDudt(), b.getDedt(), b.getDadt(), b.getGPotential(), b.getAlpha(), b.getDivergenceV(), b.getDdivvdt(), b.getSignalspeed(), b.getDt(), (double)b.getNeighbors(), (double)b.id(), (double)b.getType(), b.getElectronfraction()}) r.push_back(x);
  return r;
}
static void (*OP[])(body &) = {integration::leapfrog_kick_v, integration::leapfrog_kick_u, integration::leapfrog_kick_e, integration::leapfrog_drift, integration::save_velocityhalf, integration::dadt_integration};
static const char * NM[] = {"kick v", "kick u", "kick e", "drift", "save", "dadt"};
static body make(int i, int pat) {
  uint64_t k = mc::mix(mc::mix(5, pat), i);
  auto r = [&]() { k = mc::mix(k, 3); static const double V[] = {0, 1, -1, .25, -3.5, 1e-3, 1e4, -1e-8, .7}; return V[(k >> 20) % 9]; };
  auto p = [&]() { point_t q = 0.0; for(int d = 0; d < D; ++d) q[d] = r(); return q; };
  body b;
  b.set_id(i); b.set_mass(1 + i); b.set_radius(.5 + i); b.set_coordinates(p()); b.setVelocity(p()); b.setVelocityhalf(p()); b.setAcceleration(p()); b.setGAcceleration(pat % 3 ? p() : point_t(0.0));
  b.setInternalenergy(r()); b.setTotalenergy(r()); b.setAdiabatic(r()); b.setDensity(1); b.setPressure(2); b.setSoundspeed(3); b.setDudt(r()); b.setDedt(r()); b.setDadt(r()); b.setGPotential(-1); b.setAlpha(.3); b.setDivergenceV(r()); b.setDdivvdt(r()); b.setSignalspeed(2); b.setDt(.1); b.setNeighbors(4); b.setType(i == 1 ? WALL : NORMAL); b.setElectronfraction(.5);
  return b;
}
static void go(mc::Ctx & c) {
  bool T = c.thorough;
  const double DT[] = {.5, .001, 2, 1e-6, 0};
  for(int n = 1; n <= (T ? 6 : 4); ++n) {
    long tot = 1;
    for(int i = 0; i < n; ++i) tot *= 6;
    for(long z = 0; z < tot; z += 36) {
      if(!c.want([&] { string d = mc::fmt("%dD programs of %d operations", D, n); long y = z; for(int i = 0; i < n; ++i, y /= 6) if(i > 1 || n < 3) d += mc::fmt(" %s,", NM[y % 6]); return d + " after any two"; })) continue;
      for(long y0 = z; y0 < std::min(tot, z + 36); ++y0) for(int pat = 0; pat < (T && n > 5 ? 4 : 12); ++pat) {
        std::vector<body> b;
        for(int i = 0; i < 3; ++i) b.push_back(make(i, pat));
        std::vector<std::vector<double>> R;
        for(auto & q : b) R.push_back(all(q));
        long y = y0;
        uint64_t h = n;
        for(int i = 0; i < n; ++i, y /= 6) {
          int op = y % 6;
          double dt = DT[(i * 3 + pat) % 5];
          physics::dt = dt; physics::iteration = i; physics::totaltime += dt;
          for(auto & q : b) OP[op](q);
          for(size_t k = 0; k < b.size(); ++k) {
            auto & r = R[k];
            const int x = 0, v = D, w = 2 * D, a = 3 * D, g = 4 * D, u = 5 * D;
            std::vector<double> sc(r.size(), 0);
            auto add = [&](int to, double s) { sc[to] = fabs(s) + fabs(r[to]); r[to] += s; };
            if(op == 0) for(int d = 0; d < D; ++d) { add(v + d, .5 * dt * (r[a + d] + r[g + d])); sc[v + d] += fabs(dt * r[a + d]) + fabs(dt * r[g + d]); }
            if(op == 1) add(u, .5 * dt * r[u + 8]);
            if(op == 2) add(u + 1, .5 * dt * r[u + 9]);
            if(op == 3) for(int d = 0; d < D; ++d) add(x + d, dt * r[v + d]);
            if(op == 4) for(int d = 0; d < D; ++d) r[w + d] = r[v + d];
            if(op == 5) add(u + 2, dt * r[u + 10]);
            auto got = all(b[k]);
            for(size_t f = 0; f < r.size(); ++f) {
              if(!c.check(fabs(got[f] - r[f]) <= 4e-16 * sc[f], NM[op], mc::fmt("operation %d (%s) step %g particle %zu field %zu: %.17g want %.17g", i, NM[op], dt, k, f, got[f], r[f]))) return;
              h = mc::hd(h, r[f]);
            }
            r = got;
          }
          c.exec();
        }
        c.outcome(h);
      }
    }
  }
  // constant acceleration is followed exactly; a step back undoes a step (forces depending on the position only)
  for(int pat = 0; pat < 60; ++pat) for(int force = 0; force < 3; ++force) for(double dt : {.125, .01, .5}) for(int ns : {1, 2, 5, 16})
    if(c.want([&] { return mc::fmt("%dD %d steps of %g state %d force %d", D, ns, dt, pat, force); })) {
      body b = make(pat % 3, pat), b0 = b;
      point_t a0 = b.getAcceleration(), g0 = b.getGAcceleration();
      auto acc = [&](body & q) { point_t a = a0; if(force) for(int d = 0; d < D; ++d) a[d] = force == 1 ? -q.coordinates()[d] : sin(q.coordinates()[d]); q.setAcceleration(a); };
      auto step = [&] { integration::leapfrog_kick_v(b); integration::leapfrog_drift(b); acc(b); integration::leapfrog_kick_v(b); };
      physics::dt = dt;
      acc(b);
      for(int i = 0; i < ns; ++i) step();
      double t = ns * dt;
      uint64_t h = pat;
      for(int d = 0; d < D; ++d) {
        double A = a0[d] + g0[d], x0 = b0.coordinates()[d], v0 = b0.getVelocity()[d], sc = fabs(x0) + t * fabs(v0) + t * t * (fabs(a0[d]) + fabs(g0[d])) + 1e-300;
        if(!force) c.check(fabs(b.coordinates()[d] - x0 - v0 * t - .5 * A * t * t) <= 1e-14 * sc * ns, "constant acceleration", mc::fmt("component %d after %d steps: %.17g want %.17g", d, ns, b.coordinates()[d], x0 + v0 * t + .5 * A * t * t));
        h = mc::hd(h, b.coordinates()[d]);
      }
      body f = b;
      b.setVelocity(-1. * b.getVelocity());
      for(int i = 0; i < ns; ++i) step();
      for(int d = 0; d < D; ++d) {
        double sc = fabs(b0.coordinates()[d]) + fabs(f.coordinates()[d]) + fabs(f.getVelocity()[d]) + fabs(b0.getVelocity()[d]) + fabs(a0[d]) + fabs(g0[d]) + 1;
        for(int e = 0; e < D; ++e) sc += 0;
        c.check(fabs(b.coordinates()[d] - b0.coordinates()[d]) <= 1e-11 * sc && fabs(b.getVelocity()[d] + b0.getVelocity()[d]) <= 1e-11 * sc, "reversible", mc::fmt("component %d back after %d steps: x %.17g want %.17g, v %.17g want %.17g", d, ns, b.coordinates()[d], b0.coordinates()[d], b.getVelocity()[d], -b0.getVelocity()[d]));
      }
      c.exec(); c.outcome(h);
    }
}
int main(int n, char ** a) { return mc::main_run(n, a, go, 16); }
