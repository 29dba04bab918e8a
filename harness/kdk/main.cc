#ifndef PROP
#define PROP 26
#endif
// Runs of the real drivers against a reference leapfrog: kick, drift, forces by direct sums, kick.
#include "../drv/drv.h"
using namespace mc;
#include "../drv/phys_sets.h"
#include "../drv/alone.h"
#include "ref.h"
static void enumerate(Ctx & c) {
  th::scratch();
  bool T = c.thorough;
  struct V { const char * name; bool evolve, thermo; int passes, relax; bool adapt, ext, grav; double out; int vh; bool cul, rep, quintic, poly; };
  const V vs[] = {{"plain", 0, 0, 1, 0, 0, 0, 0}, {"plain adaptive", 0, 0, 1, 0, 1, 0, 0}, {"u", 1, 0, 1, 0, 0, 0, 0}, {"u adaptive", 1, 0, 1, 0, 1, 0, 0}, {"u two passes", 1, 0, 2, 0, 0, 0, 0}, {"u two passes adaptive", 1, 0, 2, 0, 1, 0, 0}, {"e", 1, 1, 1, 0, 0, 0, 0}, {"e two passes adaptive", 1, 1, 2, 0, 1, 0, 0},
    {"gravity", 0, 0, 1, 0, 0, 1, 0}, {"gravity u adaptive", 1, 0, 1, 0, 1, 1, 0}, {"gravity e", 1, 1, 1, 0, 0, 1, 0}, {"relaxation", 0, 0, 1, 2, 0, 0, 0}, {"relaxation e", 1, 1, 1, 2, 0, 0, 0},
    {"self-gravity", 0, 0, 1, 0, 0, 0, 1}, {"self-gravity u adaptive", 1, 0, 1, 0, 1, 0, 1}, {"self-gravity u two passes", 1, 0, 2, 0, 0, 0, 1}, {"self-gravity relaxation", 0, 0, 1, 2, 0, 0, 1},
    {"self-gravity adaptive relaxation", 0, 0, 1, 2, 1, 0, 1}, {"adaptive, outputs", 0, 0, 1, 0, 1, 0, 0, .03}, {"u adaptive, outputs", 1, 0, 1, 0, 1, 0, 0, .011},
    {"own h", 0, 0, 1, 0, 0, 0, 0, 0, 1}, {"own h u adaptive", 1, 0, 1, 0, 1, 0, 0, 0, 1}, {"common h", 0, 0, 1, 0, 0, 0, 0, 0, 2}, {"common h e adaptive", 1, 1, 1, 0, 1, 0, 0, 0, 2}, {"own h self-gravity adaptive", 0, 0, 1, 0, 1, 0, 1, 0, 1},
    {"viscosity switch", 0, 0, 1, 0, 0, 0, 0, 0, 0, 1}, {"viscosity switch u two passes adaptive", 1, 0, 2, 0, 1, 0, 0, 0, 0, 1}, {"viscosity switch e own h", 1, 1, 1, 0, 0, 0, 0, 0, 1, 1}, {"viscosity switch common h self-gravity", 0, 0, 1, 0, 0, 0, 1, 0, 2, 1},
    {"quintic spline own h u adaptive", 1, 0, 1, 0, 1, 0, 0, 0, 1, 0, 0, 1}, {"quintic spline self-gravity common h", 0, 0, 1, 0, 0, 0, 1, 0, 2, 0, 0, 1}, {"quintic spline viscosity switch e", 1, 1, 1, 0, 0, 0, 0, 0, 0, 1, 0, 1},
    {"polytrope", 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1}, {"polytrope self-gravity own h adaptive", 0, 0, 1, 0, 1, 0, 1, 0, 1, 0, 0, 0, 1}, {"polytrope quintic spline relaxation common h", 0, 0, 1, 2, 0, 0, 0, 0, 2, 0, 0, 1, 1},
    {"relaxation u", 1, 0, 1, 3, 0, 0, 0}, {"relaxation u two passes", 1, 0, 2, 3, 0, 0, 0}, {"repulsion", 0, 0, 1, 3, 0, 0, 0, 0, 0, 0, 1}, {"repulsion u own h adaptive", 1, 0, 1, 3, 1, 0, 0, 0, 1, 0, 1}, {"repulsion e two passes common h", 1, 1, 2, 2, 0, 0, 0, 0, 2, 0, 1}};
  const char * forms[] = {"hydro", "newtonian"};
  for(int D = 1; D <= 3; ++D) for(int drv = 0; drv < (D == 3 ? 2 : 1); ++drv) for(auto & v : vs) for(int kind = 0; kind < 5; ++kind) for(int np = 1; np <= (T ? 4 : 2); ++np) {
    if(v.ext && D == 1) continue;
    if(v.grav && !drv) continue;
    if(PROP == 19 && !v.adapt) continue;
    vector<TP> p = kind == 4 ? pset(D, 20, 3) : pset(D, D == 1 ? 7 : 10, kind % 3);
    if(kind == 3) for(auto & q : p) { for(int d = 0; d < D; ++d) q.x[d] *= 5; } // out of reach of each other
    if(v.poly) for(auto & q : p) q.rho = 1 + .3 * (q.id % 4); // the file's pressure is its density
    int last = T || PROP == 19 ? 8 : 4;
    Par par = {{"initial_data_prefix", q("in")}, {"output_h5data_prefix", q("out")}, {"out_h5data_every", "1"}, {"out_scalar_every", "1"}, {"out_screen_every", "0"}, {"out_diagnostic_every", "0"}, {"final_iteration", fmt("%d", last)}, {"initial_dt", v.adapt ? kind == 1 ? "1" : ".0001" : kind == 1 ? ".0125" : kind == 4 ? ".002" : ".005"},
      {"poly_gamma", "1.4"}, {"sph_kernel", q(v.quintic ? "quintic spline" : "wendland c4")}, {"eos_type", q(v.poly ? "polytropic" : "ideal fluid")}, {"sph_viscosity", q(v.cul ? "cullen" : "constant")}, {"sph_viscosity_alpha_max", "2"}, {"sph_viscosity_l", ".05"}, {"sph_viscosity_delta", "1"}, {"sph_eta", "1.5"}, {"sph_viscosity_alpha", "1"}, {"sph_viscosity_beta", "2"}, {"sph_viscosity_epsilon", ".01"}, {"sph_variable_h", v.vh == 1 ? "yes" : "no"}, {"sph_update_uniform_h", v.vh == 2 ? "yes" : "no"}};
    par.push_back({"evolve_internal_energy", v.evolve ? "yes" : "no"}); par.push_back({"thermokinetic_formulation", v.thermo ? "yes" : "no"}); par.push_back({"pressure_updates_number", fmt("%d", v.passes)}); par.push_back({"adaptive_timestep", v.adapt ? "yes" : "no"});
    if(v.relax) { par.push_back({"relaxation_steps", fmt("%d", v.relax)}); par.push_back({"relaxation_beta", "3"}); par.push_back({"relaxation_repulsion_radius", v.rep ? ".75" : "0"}); par.push_back({"relaxation_repulsion_gamma", ".02"}); }
    if(v.ext) { par.push_back({"external_force_type", q("gravity")}); par.push_back({"gravity_acceleration_constant", "1.75"}); }
    if(v.grav) { par.push_back({"enable_fmm", "yes"}); par.push_back({"fmm_macangle", "0"}); par.push_back({"gravitational_constant", "2"}); }
    if(v.adapt) { par.push_back({"timestep_cfl_factor", kind == 2 ? ".1" : ".25"}); }
    if(v.out) { par.push_back({"out_screen_dt", fmt("%g", v.out)}); par.push_back({"out_scalar_dt", fmt("%g", v.out * 1.4)}); }
    if(!c.want([&] { return fmt("%s %dD %s kind %d on %d processes, %d steps", forms[drv], D, v.name, kind, np, last); })) continue;
    string tag = string(forms[drv]) + std::to_string(D);
    auto & L = th::RankLibs<drv_entry_t>::get(tag, "drv_entry");
    for(int i = 0; i < np; ++i) L.fn[i];
    Setup S;
    S.D = D; S.tag = tag; S.par = par; S.p = p;
    Out o = alone(c, S, 0, np, sched(np, np % 2));
    if(!c.check(o.ok, "run", o.err)) continue;
    if(!c.check((int)o.snap.size() == last + 1, "snapshots", fmt("%zu of %d", o.snap.size(), last + 1))) continue;
    Ref R{D, v.evolve, v.thermo, v.grav, v.passes, v.relax, 1.4, 2, v.ext ? 1.75 : 0, 3};
    R.vh = v.vh; R.quintic = v.quintic; R.poly = v.poly; R.cullen = v.cul;
    if(v.rep) R.rr = .75, R.rg = .02;
    for(auto & t : p) { Ref::B b{}; for(int d = 0; d < D; ++d) b.x[d] = t.x[d], b.v[d] = t.v[d]; b.m = t.m; b.h = t.h; b.u = t.u; b.id = t.id; b.K = pow(t.rho, 1 - 1.4); R.b.push_back(b); }
    uint64_t h = np;
    double tm = o.snap[0].t;
    for(int k = 0; k <= last; ++k) {
      auto & s = o.snap[k];
      if(k) tm += s.dt;
      if(!c.check(std::abs(s.t - tm) < 1e-12 && s.it == k && s.dt > 0, "clock", fmt("iteration %ld time %.15g after steps adding up to %.15g", s.it, s.t, tm))) break;
      if(PROP == 19 && k) {
        double lim = R.limit(kind == 2 ? .1 : .25, 1.5);
        h = hd(h, s.dt);
        if(!c.check(s.dt <= lim * (1 + 1e-9), "step above the stability limit", fmt("step %d is %.15g, limit %.15g", k, s.dt, lim))) break;
      }
      if(k == 0) R.first(s.dt, v.adapt ? kind == 1 ? 1 : .0001 : 0); else R.step(s.dt, k);
      std::map<long, size_t> at;
      for(size_t i = 0; i < s.n; ++i) at[s.id[i]] = i;
      if(!c.check(s.n == p.size() && at.size() == s.n, "number", fmt("%zu", s.n))) break;
      double sc[6] = {1, .1, 1, 1, 1, 1};
      for(auto & b : R.b) { for(int d = 0; d < D; ++d) sc[1] = std::max(sc[1], std::abs(b.v[d])), sc[2] = std::max(sc[2], std::abs(b.a[d] + b.g[d])); sc[3] = std::max(sc[3], b.rho); sc[4] = std::max(sc[4], b.u); sc[5] = std::max(sc[5], b.P); }
      bool good = true;
      if(PROP == 19) continue;
      for(auto & b : R.b) {
        if(!at.count(b.id)) { good = c.check(false, "ids", fmt("particle %ld missing", b.id)); break; }
        size_t i = at[b.id];
        auto cmp = [&](const char * n, double ref, double scale) { double x = s.col.at(n)[i]; h = hd(h, x); good &= c.check(std::abs(x - ref) <= 1e-9 * scale, n, fmt("particle %ld at iteration %d: %s %.15g, reference %.15g", b.id, k, n, x, ref)); };
        const char *X[] = {"x", "y", "z"}, *V[] = {"vx", "vy", "vz"}, *A[] = {"ax", "ay", "az"};
        for(int d = 0; d < 3; ++d) { cmp(X[d], b.x[d], sc[0]); cmp(V[d], b.v[d], sc[1]); cmp(A[d], b.a[d] + b.g[d], sc[2]); }
        cmp("u", b.u, sc[4]); cmp("rho", b.rho, sc[3]); cmp("P", b.P, sc[5]); cmp("m", b.m, 1); cmp("h", b.h, 1);
        if(!good) break;
      }
      if(!good) break;
    }
    c.outcome(h);
  }
}
int main(int argc, char ** argv) { return mc::main_run(argc, argv, enumerate, 1); }
