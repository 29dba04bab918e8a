#include <array>
#include <mpi.h>
#include "bodies_system.h"
#include "default_physics.h"
#include "tcase.h"
#include <map>

static double newrho(long id, int k) { return 1000. * (k + 1) + id; }

extern "C" __attribute__((visibility("default"))) void
rank_entry(int rank, const TCase * c, TRes * res) {
  constexpr size_t D = gdimension;
  flecsph::mpi_config_t::instance(); // logging off by LOG_STRIP_LEVEL
  body_system<double, gdimension> bs;
  // the harness hands the particles over as an initial-data file, in file order
  bs.read_bodies("in", "out", 0);
  {
    std::map<long, const TP *> by;
    for(auto & q : c->p) by[q.id] = &q;
    bs.apply_all([&](body & a) {
      const TP & q = *by.at(a.id());
      point_t v, z{};
      for(size_t d = 0; d < D; ++d) v[d] = q.v[d];
      a.setVelocityhalf(v);
      a.set_mass(q.m);
      a.set_radius(q.h);
      a.setInternalenergy(q.u);
      a.setGAcceleration(z);
      a.setAcceleration(z);
      a.setGPotential(0.);
      a.setType(NORMAL);
    });
  }
  if(c->quiet) SIM_quiescent("read");
  res->step.clear();
  res->step.resize(c->prog.size());
  for(size_t s = 0; s < c->prog.size(); ++s) {
    TStep & t = res->step[s];
    auto & op = c->prog[s];
    switch(op.op) {
      case 'U': bs.update_iteration(); break;
      case 'R': bs.reset_ghosts(); break;
      case 'S':
        bs.apply_in_smoothinglength([&](body & p, std::vector<body *> & nb) {
          t.sweep.emplace_back();
          auto & w = t.sweep.back();
          w.id = p.id();
          for(auto * q : nb) {
            w.nb.push_back(q->id());
            w.nbrho.push_back(q->getDensity());
            w.nbu.push_back(q->getInternalenergy());
            w.nbv.push_back(q->getVelocity()[0]);
            w.nbx.push_back(q->coordinates()[0]);
            w.nbm.push_back(q->mass());
          }
          // touching fields that neighbours are not promised to see before a
          // refresh is what physics kernels do
          p.setNeighbors(nb.size());
        });
        break;
      case 'F':
        bs.apply_all([&](body & p) {
          p.setDensity(newrho(p.id(), (int)op.a));
          p.setInternalenergy(2 * newrho(p.id(), (int)op.a));
          point_t v = p.getVelocity();
          v[0] = 3 * newrho(p.id(), (int)op.a);
          p.setVelocity(v);
        });
        break;
      case 'M': // move: reflect and shift so that key order changes
        bs.apply_all([&](body & p) {
          point_t x = p.coordinates();
          for(size_t d = 0; d < D; ++d)
            x[d] = (d == 0) ? op.a - x[d] : x[d] + 0.125 * (double)((p.id() * 7 + (long)d) % 3);
          p.set_coordinates(x);
        });
        break;
      case 'Z':
        bs.apply_all([&](body & p) { point_t z{}; p.setGAcceleration(z); p.setGPotential(0.); });
        break;
      case 'G':
        bs.setMacangle(op.a);
        bs.gravitation_fmm();
        break;
      case 'Q':
        for(auto & q : c->queries) {
          point_t x;
          for(size_t d = 0; d < D; ++d) x[d] = q[d];
          std::vector<long> ids;
          for(auto * e : bs.tree()->find_in_radius(x, q[3], 0)) ids.push_back(e->id());
          t.found.push_back(ids);
        }
        break;
      case 'W': {
        auto & tr = *bs.tree();
        using cell_t = std::remove_pointer_t<decltype(tr.root())>;
        tr.traversal(tr.root(), [&](cell_t * h) {
          TNode nd{};
          nd.key = (uint64_t)h->key().value();
          nd.depth = (int)h->key().depth();
          nd.entity = h->is_entity();
          nd.shared = h->is_shared();
          if(h->is_node()) {
            nd.empty = h->is_empty_node();
            auto * k = tr.get_node(h);
            nd.mass = k->mass();
            nd.radius = k->radius();
            nd.lap = k->lap();
            nd.count = k->sub_entities();
            for(size_t d = 0; d < D; ++d) {
              nd.com[d] = k->coordinates()[d];
              nd.bmin[d] = k->bmin()[d];
              nd.bmax[d] = k->bmax()[d];
            }
          }
          else {
            auto * e = tr.get_entity(h);
            nd.id = e->id();
            nd.mass = e->mass();
            for(size_t d = 0; d < D; ++d) nd.x[d] = e->coordinates()[d];
          }
          t.nodes.push_back(nd);
          return h->is_node() && !h->is_empty_node();
        });
        break;
      }
    }
    t.nlocal = bs.getNLocalBodies();
    t.ntotal = bs.getNBodies();
    for(auto & p : bs.getLocalbodies()) {
      TBody o{};
      o.id = p.id();
      o.key = (uint64_t)p.key().value();
      for(size_t d = 0; d < D; ++d) {
        o.x[d] = p.coordinates()[d];
        o.v[d] = p.getVelocity()[d];
        o.ga[d] = p.getGAcceleration()[d];
      }
      o.gp = p.getGPotential();
      o.h = p.radius();
      o.m = p.mass();
      o.rho = p.getDensity();
      o.u = p.getInternalenergy();
      t.bodies.push_back(o);
    }
    for(int k = 0; k < 2; ++k) for(size_t d = 0; d < D; ++d) t.range[k][d] = bs.tree()->range()[k][d];
    if(c->quiet) SIM_quiescent("op");
  }
}
