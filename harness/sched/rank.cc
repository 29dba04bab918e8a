// The drivers' main loop reduced to its time step and output control.
#include <array>
#include <mpi.h>
#include "bodies_system.h"
#include "default_physics.h"
#include "analysis.h"
#include "scase.h"
extern "C" __attribute__((visibility("default"))) void
sched_entry(int rank, const SCase * c, SRes * r) {
  r->s.clear();
  r->done = false;
  for(auto & p : c->par) param::set_param(p.first, p.second);
  body_system<double, gdimension> bs;
  analysis::set_initial_time_iteration();
  bs.read_bodies("in", "out", c->start);
  const long first = physics::iteration;
  auto adapt = [&] {
    long k = physics::iteration - first;
    double l = c->limit[k % c->limit.size()];
    // the most restrictive particle is in another place every iteration
    bs.apply_all([&](body & b) { b.setDt(b.id() % 4 == (k * 3 + 1) % 4 ? l : l * (1.5 + b.id())); });
    bs.get_all(physics::set_adaptive_timestep);
  };
  do {
    analysis::screen_output(rank);
    if(physics::iteration == first && param::adaptive_timestep) adapt();
    r->s.push_back({(long)physics::iteration, physics::totaltime, physics::dt, 0.});
    analysis::scalar_output(bs, rank);
    analysis::h5data_output(bs, rank);
    if(param::adaptive_timestep) adapt();
    if((int)r->s.size() > c->guard) return;
    r->s.back().dt = physics::dt;
    physics::advance_time();
    r->s.back().t2 = physics::totaltime;
  } while(!physics::termination_criteria());
  r->done = true;
}
