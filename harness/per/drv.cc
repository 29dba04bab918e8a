// Runs of the real drivers in periodic boxes against the reference leapfrog with periodic distances.
#include "../drv/drv.h"
using namespace mc;
#include "../drv/phys_sets.h"
#include "../drv/alone.h"
#include "../kdk/ref.h"
static vector<TP> periodic_set(int D, int pm, int kind, double h, const double * Lb) {
  int N = D == 1 ? 14 : D == 2 ? 42 : 48;
  vector<TP> p;
  for(int i = 0; i < N; ++i) {
    TP q = TP();
    static const int pr[3] = {7, 11, 5};
    for(int d = 0; d < D; ++d) { // spread over the box, some outside
      double u = std::fmod((i + .5) * (d == 0 ? (D == 1 ? 1. / N : .6180339887) : d == 1 ? .7548776662 : .5698402910) + (D == 1 ? .005 : .01) * ((i * pr[d]) % 5), 1.);
      bool per = pm >> d & 1;
      q.x[d] = (u - .5) * Lb[d] * (per ? .999 : .7) + (per && kind == 1 ? .17 * (d + 1) : 0);
      q.v[d] = kind == 2 ? per ? 6 * std::sin(2 * M_PI * q.x[d] / Lb[d]) : 0 : std::sin(3. * i + 2 * d) * (kind ? 1.5 : .7); // kind 2: onto the faces
    }
    q.id = i; q.m = .01 * (1 + .5 * (i % 3)); q.h = h - (kind ? .01 * (i % 3) : 0); q.rho = 1; q.u = .5 + .1 * (i % 5);
    p.push_back(q);
  }
  return p;
}
// a jittered lattice with neighbours near the edge of the kernel, where the chain of dependent passes is longest
static vector<TP> lattice_set(int D, int kind, const double * Lb, double & h) {
  const int n[3] = {D == 1 ? 14 : D == 2 ? 7 : 5, D == 2 ? 8 : 6, 5};
  int N = n[0] * (D > 1 ? n[1] : 1) * (D > 2 ? n[2] : 1);
  double s = 0;
  for(int d = 0; d < D; ++d) s = std::max(s, Lb[d] / n[d]);
  h = s * (1.08 + .05 * kind);
  vector<TP> p;
  for(int i = 0; i < N; ++i) {
    TP q = TP();
    int k[3] = {i % n[0], i / n[0] % n[1], i / n[0] / n[1]};
    for(int d = 0; d < D; ++d) {
      q.x[d] = ((k[d] + .5) / n[d] - .5) * Lb[d] + .02 * s * std::sin(3. * i + d);
      q.v[d] = std::sin(2. * i + 5 * d + kind) * 1.5;
    }
    q.id = i; q.m = .01 * (1 + .5 * (i % 3)); q.h = h; q.rho = 1; q.u = .5 + .1 * (i % 5);
    p.push_back(q);
  }
  return p;
}
static void enumerate(Ctx & c) {
  th::scratch();
  bool T = c.thorough;
  struct V { const char * name; bool evolve, thermo; int passes, relax; };
  const V vs[] = {{"plain", 0, 0, 1, 0}, {"u", 1, 0, 1, 0}, {"u two passes", 1, 0, 2, 0}, {"e", 1, 1, 1, 0}, {"e two passes", 1, 1, 2, 0}, {"u three passes", 1, 0, 3, 0}, {"relaxation", 0, 0, 1, 2}};
  const double Lb[3] = {1, 1.2, 1.1};
  auto base = [&](int last, int pm) { return Par{{"initial_data_prefix", q("in")}, {"output_h5data_prefix", q("out")}, {"out_h5data_every", "1"}, {"out_scalar_every", "1"}, {"out_screen_every", "0"}, {"out_diagnostic_every", "0"}, {"final_iteration", fmt("%d", last)}, {"initial_dt", ".002"},
    {"poly_gamma", "1.4"}, {"eos_type", q("ideal fluid")}, {"sph_viscosity_alpha", "1"}, {"sph_viscosity_beta", "2"}, {"sph_viscosity_epsilon", ".01"}, {"sph_variable_h", "no"}, {"sph_update_uniform_h", "no"}, {"adaptive_timestep", "no"},
    {"box_length", fmt("%.17g", Lb[0])}, {"box_width", fmt("%.17g", Lb[1])}, {"box_height", fmt("%.17g", Lb[2])}, {"periodic_boundary_x", pm & 1 ? "yes" : "no"}, {"periodic_boundary_y", pm & 2 ? "yes" : "no"}, {"periodic_boundary_z", pm & 4 ? "yes" : "no"}}; };
  struct M { const char * name, * kernel; bool evolve, thermo, cullen; int passes; };
  const M ms[] = {{"cullen", "wendland c4", 0, 0, 1, 1}, {"cullen u two passes", "wendland c2", 1, 0, 1, 2}, {"u two passes cubic", "cubic spline", 1, 0, 0, 2}, {"cullen e cubic", "cubic spline", 1, 1, 1, 1}, {"cullen u cubic", "cubic spline", 1, 0, 1, 1}};
  // moved along the box: nothing changes
  for(int D = 1; D <= 3; ++D) for(auto & v : ms) for(int pm = (1 << D) - 1; pm; --pm) for(int kind = 0; kind < 6; ++kind) {
    if(kind > 2 && (D != 2 && !T || string(v.kernel) != "cubic spline")) continue;
    if(D == 3 && !T && pm != 7) continue;
    int last = T ? 8 : 4;
    double hl;
    auto p = kind > 2 ? lattice_set(D, kind - 3, Lb, hl) : periodic_set(D, pm, kind, (kind == 2 && pm == 1 ? .24 : D == 1 ? .155 : .16), Lb);
    Par par = base(last, pm);
    par.push_back({"sph_kernel", q(v.kernel)}); par.push_back({"sph_viscosity", q(v.cullen ? "cullen" : "constant")});
    par.push_back({"evolve_internal_energy", v.evolve ? "yes" : "no"}); par.push_back({"thermokinetic_formulation", v.thermo ? "yes" : "no"}); par.push_back({"pressure_updates_number", fmt("%d", v.passes)});
    if(!c.want([&] { return fmt("%dD %s periodic %d kind %d moved along the box, %d steps", D, v.name, pm, kind, last); })) continue;
    string tag = "hydro" + std::to_string(D);
    auto & L = th::RankLibs<drv_entry_t>::get(tag, "drv_entry");
    for(int i = 0; i < 4; ++i) L.fn[i];
    Setup S;
    S.D = D; S.tag = tag; S.par = par; S.p = p;
    Out o = alone(c, S, 0, 1, sched(1, 0));
    if(!c.check(o.ok, "run", o.err)) continue;
    uint64_t hh = 1;
    static const double F[3][3] = {{.31, -.27, .43}, {.5, .11, -.49}, {-.13, .37, .22}};
    for(int m = 0; m < 3; ++m) {
      int np = 1 + (m + kind) % 3;
      S.p = p;
      for(auto & t : S.p) for(int d = 0; d < D; ++d) if(pm >> d & 1) { t.x[d] += F[m][d] * Lb[d]; if(t.x[d] > Lb[d] / 2) t.x[d] -= Lb[d]; else if(t.x[d] <= -Lb[d] / 2) t.x[d] += Lb[d]; }
      Out w = alone(c, S, 0, np, sched(np, m % 2));
      if(!c.check(w.ok && w.snap.size() == o.snap.size(), "run", w.err)) break;
      bool good = true;
      for(size_t k = 0; k < o.snap.size() && good; ++k) {
        auto &s = o.snap[k], &t = w.snap[k];
        std::map<long, size_t> at[2];
        for(auto * z : {&s, &t}) for(size_t i = 0; i < z->n; ++i) if(z->col.at("type")[i] == 0) at[z == &t][z->id[i]] = i;
        if(!(good = c.check(at[0].size() == p.size() && at[1].size() == p.size(), "number", fmt("%zu %zu", at[0].size(), at[1].size())))) break;
        for(auto n : {"vx", "vy", "vz", "ax", "ay", "az", "u", "rho", "P", "m", "h", "alpha"}) if(s.col.count(n)) for(auto & e : at[0]) {
          double x = s.col.at(n)[e.second], y = at[1].count(e.first) ? t.col.at(n)[at[1][e.first]] : NAN, sc = std::max(n[0] == 'v' ? .1 : 1, scale(s, n));
          hh = hd(hh, x);
          if(!(good = c.check(std::abs(x - y) <= 1e-9 * sc, string("moved ") + n, fmt("particle %ld at iteration %zu on %d processes moved by %g %g %g boxes: %s %.15g, %.15g where it was", e.first, k, np, F[m][0], F[m][1], F[m][2], n, y, x)))) break;
        }
      }
      if(!good) break;
    }
    c.outcome(hh);
  }
  for(int D = 1; D <= 3; ++D) for(auto & v : vs) for(int pm = (1 << D) - 1; pm; --pm) for(int kind = 0; kind < 3; ++kind) for(int np = 1; np <= (T ? 6 : 4); ++np) {
    if(D == 3 && !T && (kind == 1 || pm != 7 && pm != 5 || np == 2)) continue;
    vector<TP> p = periodic_set(D, pm, kind, (kind == 2 && pm == 1 ? .24 : D == 1 ? .155 : .16), Lb);
    int last = T ? 10 : 5;
    Par par = base(last, pm);
    par.push_back({"sph_kernel", q("wendland c4")}); par.push_back({"sph_viscosity", q("constant")});
    par.push_back({"evolve_internal_energy", v.evolve ? "yes" : "no"}); par.push_back({"thermokinetic_formulation", v.thermo ? "yes" : "no"}); par.push_back({"pressure_updates_number", fmt("%d", v.passes)});
    if(v.relax) { par.push_back({"relaxation_steps", fmt("%d", v.relax)}); par.push_back({"relaxation_beta", "3"}); par.push_back({"relaxation_repulsion_radius", "0"}); }
    if(!c.want([&] { return fmt("%dD %s periodic %d kind %d on %d processes, %d steps", D, v.name, pm, kind, np, last); })) continue;
    string tag = "hydro" + std::to_string(D);
    auto & L = th::RankLibs<drv_entry_t>::get(tag, "drv_entry");
    for(int i = 0; i < np; ++i) L.fn[i];
    Setup S;
    S.D = D; S.tag = tag; S.par = par; S.p = p;
    Out o = alone(c, S, 0, np, sched(np, np % 2));
    if(!c.check(o.ok, "run", o.err)) continue;
    if(!c.check((int)o.snap.size() == last + 1, "snapshots", fmt("%zu of %d", o.snap.size(), last + 1))) continue;
    Ref R{D, v.evolve, v.thermo, false, v.passes, v.relax, 1.4, 0, 0, 3};
    for(int d = 0; d < D; ++d) if(pm >> d & 1) R.L[d] = Lb[d];
    for(auto & t : p) { Ref::B b{}; for(int d = 0; d < D; ++d) b.x[d] = t.x[d], b.v[d] = t.v[d]; b.m = t.m; b.h = t.h; b.u = t.u; b.id = t.id; R.b.push_back(b); }
    uint64_t hh = np;
    for(int k = 0; k <= last; ++k) {
      auto & s = o.snap[k];
      if(k == 0) R.first(s.dt); else R.step(s.dt, k);
      std::map<long, size_t> at;
      size_t n = 0;
      for(size_t i = 0; i < s.n; ++i) if(s.col.at("type")[i] == 0) at[s.id[i]] = i, ++n;
      if(!c.check(n == p.size() && at.size() == n, "number", fmt("%zu at iteration %d", n, k))) break;
      double sc[6] = {1, .1, 1, 1, 1, 1};
      for(auto & b : R.b) { for(int d = 0; d < D; ++d) sc[1] = std::max(sc[1], std::abs(b.v[d])), sc[2] = std::max(sc[2], std::abs(b.a[d])); sc[3] = std::max(sc[3], b.rho); sc[4] = std::max(sc[4], b.u); sc[5] = std::max(sc[5], b.P); }
      bool good = true;
      for(auto & b : R.b) {
        if(!at.count(b.id)) { good = c.check(false, "ids", fmt("particle %ld missing", b.id)); break; }
        size_t i = at[b.id];
        auto cmp = [&](const char * n, double ref, double scale) { double x = s.col.at(n)[i]; hh = hd(hh, x); good &= c.check(std::abs(x - ref) <= 1e-9 * scale, n, fmt("particle %ld at iteration %d: %s %.15g, reference %.15g", b.id, k, n, x, ref)); };
        const char *X[] = {"x", "y", "z"}, *V[] = {"vx", "vy", "vz"}, *A[] = {"ax", "ay", "az"};
        for(int d = 0; d < D; ++d) { cmp(X[d], b.x[d], sc[0]); cmp(V[d], b.v[d], sc[1]); cmp(A[d], b.a[d], sc[2]); }
        cmp("u", b.u, sc[4]); cmp("rho", b.rho, sc[3]); cmp("P", b.P, sc[5]); cmp("m", b.m, 1); cmp("h", b.h, 1);
        if(!good) break;
      }
      if(!good) break;
    }
    c.outcome(hh);
  }
}
int main(int argc, char ** argv) { return mc::main_run(argc, argv, enumerate, 1); }
