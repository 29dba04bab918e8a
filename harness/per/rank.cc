// Updates of a periodic system: the particles of every rank after each of them.
#include <array>
#include <mpi.h>
#include "bodies_system.h"
#include "default_physics.h"
#include "pcase.h"
extern "C" __attribute__((visibility("default"))) void
per_entry(int rank, const PCase * c, PRes * r) {
  for(auto & p : c->par) param::set_param(p.first, p.second);
  kernels::select();
  body_system<double, gdimension> bs;
  bs.read_bodies("in", "out", 0);
  bs.get_all([&](std::vector<body> & b) {
    b.clear();
    for(size_t i = 0; i < c->p.size(); ++i) if(c->owner[i] == rank) {
      auto & q = c->p[i];
      body a;
      point_t x, v;
      for(int d = 0; d < gdimension; ++d) x[d] = q.x[d], v[d] = q.v[d];
      a.set_id(q.id); a.set_coordinates(x); a.setVelocity(v); a.set_mass(q.m); a.set_radius(q.h); a.setInternalenergy(q.u); a.setTotalenergy(q.u); a.setDensity(1); a.setType(NORMAL);
      a.setAcceleration(point_t{}); a.setGAcceleration(point_t{}); a.setVelocityhalf(v); a.setPressure(1); a.setSoundspeed(1); a.setAlpha(0);
      b.push_back(a);
    }
  });
  for(size_t k = 0; k <= c->dt.size(); ++k) {
    if(k) { physics::dt = c->dt[k - 1]; bs.apply_all(integration::leapfrog_drift); }
    bs.update_iteration();
    std::vector<POut> o;
    bs.get_all([&](std::vector<body> & all) { for(auto & b : all) {
      POut q{};
      q.id = b.id(); q.type = b.getType(); q.m = b.mass(); q.h = b.radius(); q.u = b.getInternalenergy();
      for(int d = 0; d < gdimension; ++d) q.x[d] = b.coordinates()[d], q.v[d] = b.getVelocity()[d];
      o.push_back(q);
    }});
    r->up.push_back(o);
  }
}
