#pragma once
struct Setup { string name, tag; int D; Par par; vector<TP> p; size_t nsnap; bool free = true; };
static const std::set<string> IGN = {"rank", "neighbors", "gradV", "traceSS", "trigger", "xi", "dDivVdt"};
static vector<TP> order(const vector<TP> & p, int o) {
  vector<TP> r = p;
  if(o == 1) std::reverse(r.begin(), r.end());
  if(o == 2) { r.clear(); for(size_t i = 0; i < p.size(); i += 2) r.push_back(p[i]); for(size_t i = 1; i < p.size(); i += 2) r.push_back(p[i]); }
  if(o == 3) std::rotate(r.begin(), r.begin() + r.size() / 2, r.end());
  return r;
}
// an irregular lattice of n particles; kind: 0 uniform, 1 two densities, 2 converging flow,
// 3 wide and sheared: neighbours are few and particles change processes
static vector<TP> pset(int D, int n, int kind) {
  vector<TP> r;
  int s = D == 1 ? n : D == 2 ? (int)std::ceil(std::sqrt(n)) : (int)std::ceil(std::cbrt(n));
  for(int i = 0; i < n; ++i) {
    TP q = TP();
    int k = i;
    for(int d = 0; d < D; ++d) { int j = k % s; k /= s; q.x[d] = .1 * (j + .13 * ((i * 7 + d * 3) % 5) / 5.); }
    if(kind == 1 && q.x[0] > .1 * s / 2) q.x[0] += .05 * (q.x[0] / .1 - s / 2);
    if(kind == 3) for(int d = 0; d < D; ++d) q.v[d] = d > 0 ? .5 * std::cos(3. * i + d) : D == 1 ? std::cos(1.7 * i) : i % 2 ? 2. : -2.;
    else for(int d = 0; d < D; ++d) q.v[d] = kind == 2 ? -(q.x[d] - .05 * s) * 3 + .01 * d : .1 * std::sin(5. * i + d);
    q.id = i * 3 + 1; q.m = .01 * (1 + (kind == 1 ? .5 * (i % 3) : 0)); q.h = (kind == 3 ? .15 : .25) + (kind ? .01 * (i % 4) : 0); q.rho = 1; q.u = (kind == 3 ? 10 : 1) + (kind ? .2 * (i % 5) : 0);
    r.push_back(q);
  }
  return r;
}
static string q(const string & s) { return "\"" + s + "\""; }
static vector<Setup> setups(bool T) {
  vector<Setup> r;
  struct V { const char * name; Par par; bool free; int D; const char * drv; };
  vector<V> vs = {
    {"plain", {}, true, 0, "hydro"},
    {"adaptive", {{"adaptive_timestep", "yes"}}, true, 0, "hydro"},
    {"internal energy", {{"evolve_internal_energy", "yes"}, {"adaptive_timestep", "yes"}}, true, 0, "hydro"},
    {"two passes", {{"evolve_internal_energy", "yes"}, {"pressure_updates_number", "2"}}, true, 0, "hydro"},
    {"thermokinetic", {{"evolve_internal_energy", "yes"}, {"thermokinetic_formulation", "yes"}, {"adaptive_timestep", "yes"}}, true, 0, "hydro"},
    {"thermokinetic two passes", {{"evolve_internal_energy", "yes"}, {"thermokinetic_formulation", "yes"}, {"pressure_updates_number", "2"}}, true, 0, "hydro"},
    {"cullen", {{"sph_viscosity", q("cullen")}, {"evolve_internal_energy", "yes"}}, true, 0, "hydro"},
    {"variable h", {{"sph_variable_h", "yes"}, {"evolve_internal_energy", "yes"}, {"adaptive_timestep", "yes"}}, true, 0, "hydro"},
    {"uniform h", {{"sph_update_uniform_h", "yes"}}, true, 0, "hydro"},
    {"relaxation", {{"relaxation_steps", "3"}, {"relaxation_beta", ".5"}, {"relaxation_repulsion_gamma", ".1"}}, false, 0, "hydro"},
    {"walls", {{"external_force_type", q("walls:x")}, {"box_length", "4"}}, false, 0, "hydro"},
    {"gravity", {{"enable_fmm", "yes"}, {"fmm_macangle", "0"}, {"gravitational_constant", "1"}, {"adaptive_timestep", "yes"}}, true, 3, "newtonian"},
    {"gravity thermokinetic", {{"enable_fmm", "yes"}, {"fmm_macangle", "0"}, {"gravitational_constant", "1"}, {"evolve_internal_energy", "yes"}, {"thermokinetic_formulation", "yes"}, {"adaptive_timestep", "yes"}}, true, 3, "newtonian"},
    {"newtonian variable h", {{"sph_variable_h", "yes"}, {"evolve_internal_energy", "yes"}, {"adaptive_timestep", "yes"}}, true, 3, "newtonian"},
  };
  for(int D = 1; D <= 3; ++D) for(auto & v : vs) for(int kind = 0; kind < 4; ++kind) {
    if(v.D && v.D != D) continue;
    if(kind == 3 && (string(v.name) == "walls" || string(v.name) == "uniform h" || string(v.name) == "relaxation")) continue; // too violent
    Setup S;
    S.D = D; S.free = v.free; S.tag = string(v.drv) + std::to_string(D); S.nsnap = kind == 3 ? 6 : 4;
    S.name = fmt("%s %dD %s kind %d", v.drv, D, v.name, kind);
    S.p = pset(D, kind == 3 ? (D == 1 ? 37 : D == 2 ? 49 : 64) : D == 1 ? 9 : D == 2 ? 12 : 11, kind);
    S.par = {{"initial_data_prefix", q("in")}, {"output_h5data_prefix", q("out")}, {"out_h5data_every", "1"}, {"out_scalar_every", "1"}, {"out_screen_every", "0"}, {"out_diagnostic_every", "1"}, {"final_iteration", kind == 3 ? "5" : "3"}, {"initial_dt", ".005"},
      {"poly_gamma", "1.4"}, {"sph_kernel", q("wendland c4")}, {"eos_type", q("ideal fluid")}};
    for(auto & p : v.par) S.par.push_back(p);
    r.push_back(S);
  }
  return r;
}
