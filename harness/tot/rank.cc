// Reports of a set of particles split over the ranks in any way.
#include <array>
#include <mpi.h>
#include "bodies_system.h"
#include "default_physics.h"
#include "analysis.h"
#include "diagnostic.h"
#include "ocase.h"
extern "C" __attribute__((visibility("default"))) void
tot_entry(int rank, const OCase * c, ORes * r) {
  for(auto & p : c->par) param::set_param(p.first, p.second);
  kernels::select();
  external_force::select(param::external_force_type);
  body_system<double, gdimension> bs;
  bs.read_bodies("in", "out", 0);
  for(auto & S : c->st) {
    physics::iteration = S.it; physics::totaltime = S.t; physics::dt = S.dt;
    bs.get_all([&](std::vector<body> & b) {
      b.clear();
      for(size_t i = 0; i < S.p.size(); ++i) if(S.owner[i] == rank) {
        auto & q = S.p[i];
        body a;
        point_t x, v;
        for(int d = 0; d < gdimension; ++d) x[d] = q.x[d], v[d] = q.v[d];
        a.set_id(i); a.set_coordinates(x); a.setVelocity(v); a.set_mass(q.m); a.set_radius(q.h); a.setInternalenergy(q.u); a.setTotalenergy(q.e); a.setDensity(q.rho); a.setGPotential(q.gp);
        a.setType(q.type ? WALL : NORMAL); a.setNeighbors(q.nb); a.setAcceleration(point_t{}); a.setGAcceleration(point_t{}); a.setVelocityhalf(v); a.setPressure(1); a.setSoundspeed(1); a.setAlpha(0);
        b.push_back(a);
      }
    });
    if(c->tree) bs.update_iteration();
    analysis::scalar_output(bs, rank);
    if(c->diag) diagnostic::output(bs, rank);
    OVal o{};
    o.mass = analysis::total_mass; o.e = analysis::total_energy; o.kin = analysis::total_kinetic_energy; o.in = analysis::total_internal_energy; o.grav = analysis::total_gravitational_energy;
    for(int d = 0; d < gdimension; ++d) o.mom[d] = analysis::linear_momentum[d];
    for(int d = 0; d < 3; ++d) o.ang[d] = analysis::total_ang_mom[d];
    o.hmin = diagnostic::h_min; o.hmax = diagnostic::h_max; o.havg = diagnostic::h_average; o.vmin = diagnostic::V_min; o.vmax = diagnostic::V_max; o.vavg = diagnostic::V_average;
    o.nmin = diagnostic::N_min; o.nmax = diagnostic::N_max; o.navg = diagnostic::N_average;
    bs.get_all(physics::compute_average_smoothinglength, (int64_t)S.p.size());
    bs.apply_all([&](body & b) { o.newh.push_back(b.radius()); });
    r->v.push_back(o);
  }
}
