#include <array>
#include <cmath>
#include <mpi.h>
#include "bodies_system.h"
#include "default_physics.h"
#include "analysis.h"
#include "iocase.h"
extern "C" __attribute__((visibility("default"))) void
io_entry(int rank, const Life * L, LRes * r) {
  auto set = [&](const char * k, const std::string & v) { param::set_param(k, v); };
  set("out_h5data_separate_iterations", L->sep ? "yes" : "no");
  set("initial_iteration", std::to_string(L->first));
  set("initial_data_prefix", "\"" + L->in + "\"");
  set("output_h5data_prefix", "\"" + L->out + "\"");
  set("initial_dt", std::to_string(L->initial_dt));
  set("out_h5data_every", std::to_string(L->every));
  analysis::set_initial_time_iteration();
  body_system<double, gdimension> bs;
  if(L->read) {
    bs.read_bodies(L->in.c_str(), L->out.c_str(), L->first);
    r->time = physics::totaltime; r->dt = physics::dt; r->total = bs.getNBodies(); r->local = bs.getNLocalBodies();
    bs.get_all([&](std::vector<body> & all) { for(auto & p : all) {
      IB b{};
      for(int d = 0; d < gdimension; ++d) b.x[d] = p.coordinates()[d], b.v[d] = p.getVelocity()[d];
      b.m = p.mass(); b.h = p.radius(); b.rho = p.getDensity(); b.P = p.getPressure(); b.u = p.getInternalenergy(); b.dt = p.getDt(); b.id = p.id(); b.type = p.getType(); b.state = p.state();
      r->b.push_back(b);
    }});
  }
  for(auto & w : L->writes) {
    bs.get_all([&](std::vector<body> & v) {
      v.clear();
      for(auto & b : w.of[rank]) {
        body p;
        point_t x, u, a, g;
        for(int d = 0; d < gdimension; ++d) x[d] = b.x[d], u[d] = b.v[d], a[d] = b.a[d], g[d] = b.g[d];
        p.set_coordinates(x); p.setVelocity(u); p.setAcceleration(a); p.setGAcceleration(g); p.set_mass(b.m); p.set_radius(b.h); p.setDensity(b.rho); p.setPressure(b.P); p.setInternalenergy(b.u); p.setDt(b.dt);
        p.setGradV(b.grad); p.setTraceSS(b.ss); p.setAlpha(b.alpha); p.setDivergenceV(b.div); p.setDdivvdt(b.ddiv); p.setTrigger(b.trig); p.setXi(b.xi); p.set_id(b.id); p.setType(b.type); p.set_state(b.state); p.setNeighbors(b.nb);
        v.push_back(p);
      }
    });
    physics::totaltime = w.time; physics::dt = w.dt; physics::iteration = w.iter;
    bs.write_bodies(w.prefix.c_str(), w.iter, w.time);
  }
  for(int k = L->first; k <= L->last; ++k) {
    physics::iteration = k;
    if(k != L->first || !L->first) { // the state after the step to k
      physics::totaltime = run_time(k); physics::dt = run_dt(k);
      bs.apply_all([&](body & p) {
        point_t x, u;
        for(int d = 0; d < gdimension; ++d) x[d] = run_value(L->salt, k, p.id(), d), u[d] = run_value(L->salt, k, p.id(), 3 + d);
        p.set_coordinates(x); p.setVelocity(u); p.setDensity(run_value(L->salt, k, p.id(), 6)); p.setPressure(run_value(L->salt, k, p.id(), 7)); p.setInternalenergy(run_value(L->salt, k, p.id(), 8));
      });
    }
    analysis::h5data_output(bs, rank);
  }
  r->done = 1;
}
