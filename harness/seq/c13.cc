// Parameter files against a reference reading of the documented format.
#include "mc.h"
#include "params.h"
#include <sys/wait.h>
using std::string;
// name, kind (n number, i integer, b boolean, s string, k keyword), reader as text
struct Par { const char * name; char kind; std::function<string()> get; string def; };
static string show(double v) { return mc::fmt("%.17g", v); }
template<class T> static string showi(T v) { return std::to_string((long long)v); }
static std::vector<Par> P;
static void table() {
#define N_(x, d) P.push_back({#x, 'n', [] { return show(param::x); }, show(d)});
#define I_(x, d) P.push_back({#x, 'i', [] { return showi(param::x); }, showi(d)});
#define B_(x, d) P.push_back({#x, 'b', [] { return string(param::x ? "1" : "0"); }, d ? "1" : "0"});
#define S_(x, d) P.push_back({#x, 's', [] { return string(param::x); }, d});
#define K_(x, d) P.push_back({#x, 'k', [] { return showi(param::x); }, showi(param::d)});
  B_(adaptive_timestep, false) B_(sph_update_uniform_h, false) B_(sph_variable_h, false) B_(do_boundaries, false) B_(stop_boundaries, false)
  B_(reflect_boundaries, false) B_(periodic_boundary_x, false) B_(periodic_boundary_y, false) B_(periodic_boundary_z, false) B_(modify_initial_data, false)
  B_(out_h5data_separate_iterations, false) B_(wvt_convergence_check, true) B_(wvt_h_ngb, false) B_(wvt_set_boundary, true) B_(enable_fmm, false)
  B_(evolve_internal_energy, true) B_(thermokinetic_formulation, true) B_(equal_mass, true)
  N_(initial_time, 0.) N_(final_time, 0.) N_(initial_dt, 0.001) N_(timestep_cfl_factor, 0.25) N_(sph_eta, 1.5) N_(sph_smoothing_length, -1.) N_(sph_separation, -1.) N_(sph_sinc_index, 4.)
  N_(box_length, 3.) N_(box_width, 1.) N_(box_height, 1.) N_(sphere_radius, 1.) N_(lattice_mismatch_tolerance, 0.05) N_(out_screen_dt, 0.) N_(out_scalar_dt, 0.) N_(out_h5data_dt, 0.)
  N_(wvt_mu, 1.e-3) N_(wvt_ngb, 120.) N_(wvt_convergence_point, 1.) N_(wvt_radius, 1.) N_(poly_gamma, 1.4) N_(poly_gamma2, 2.5) N_(ppt_density_thr, 5e14)
  N_(sph_viscosity_alpha, 1.) N_(sph_viscosity_beta, 2.) N_(sph_viscosity_epsilon, 0.01) N_(sph_viscosity_alpha_max, 1.) N_(sph_viscosity_l, 0.05) N_(sph_viscosity_delta, 1.)
  N_(fmm_macangle, 0.) N_(fmm_max_cell_mass, 0.) N_(relaxation_beta, 1.e-6) N_(relaxation_gamma, 0.) N_(relaxation_repulsion_radius, 0.25) N_(relaxation_repulsion_gamma, 0.)
  N_(zero_potential_poison_value, 0.) N_(extforce_wall_powerindex, 5.) N_(extforce_wall_steepness, 1e12) N_(mesa_rim_width, 0.25) N_(gravity_acceleration_constant, 9.81)
  N_(gravitational_constant, 1.) N_(orbital_separation, 2.5e9) N_(mass_neutron_star, 1.26 * 1.988435e33) N_(mass_white_dwarf, 1.10 * 1.988435e33) N_(rho_initial, 1.) N_(pressure_initial, 1.)
  N_(uint_initial, 1.) N_(sedov_blast_energy, 1.) N_(sedov_blast_radius, 0.05) N_(noh_infall_velocity, 0.1) N_(lattice_perturbation_amplitude, 0.) N_(flow_velocity, 0.) N_(density_ratio, 2.)
  N_(KH_A, 0.025) N_(KH_lambda, 1. / 6.) N_(rt_perturbation_amplitude, 0.2) N_(rt_perturbation_stripe_width, 0.1) N_(rt_perturbation_mode, 1.)
  N_(airfoil_size, 2.) N_(airfoil_thickness, 0.05) N_(airfoil_camber, 0.1) N_(airfoil_anchor_x, -1.) N_(airfoil_anchor_y, 0.) N_(airfoil_attack_angle, 0.)
  I_(domain_type, 0) I_(wvt_cool_down, 0) I_(relaxation_steps, 0) I_(lattice_type, 0) I_(out_screen_every, 1) I_(out_scalar_every, 10) I_(out_diagnostic_every, 0) I_(out_h5data_every, 10)
  I_(initial_iteration, 0) I_(final_iteration, 0) I_(pressure_updates_number, 1) I_(nparticles, 1000) I_(lattice_nx, 100) I_(sodtest_num, 1)
  S_(initial_data_prefix, "initial_data") S_(output_h5data_prefix, "output_data") S_(wvt_method, "arth") S_(wvt_boundary, "reflective") S_(eos_tab_file_path, ".") S_(external_force_type, "none")
  S_(density_profile, "constant") S_(input_density_file, "")
  K_(sph_kernel, wendland_c4) K_(eos_type, eos_ideal) K_(sph_viscosity, visc_constant)
}
// the values to write for a parameter: text and expected reading
typedef std::pair<string, string> TV;
static std::vector<TV> values(const Par & p) {
  std::vector<TV> v;
  auto k = [&](std::initializer_list<const char *> l, int e) { for(auto s : l) v.push_back({s, showi(e)}); };
  switch(p.kind) {
    case 'n': for(const char * s : {"0", "1", "-1", "0.5", "2.5e-3", "-1.25E+10", "1.", ".75", "6.02214076e23", "0.1", "123456.789012345"}) v.push_back({s, show(strtod(s, 0))}); break;
    case 'i': for(const char * s : {"0", "1", "7", "32767", "42"}) v.push_back({s, showi(atol(s))});
      if(string(p.name) != "sodtest_num") { v.push_back({"-3", "-3"}); v.push_back({"2147483647", "2147483647"}); }
      for(auto q : {"nparticles", "final_iteration", "initial_iteration", "lattice_nx", "pressure_updates_number"}) if(string(q) == p.name) v.push_back({"5000000000", "5000000000"});
      break;
    case 'b': v = {{"yes", "1"}, {"no", "0"}, {"true", "1"}, {"false", "0"}}; break;
    case 's': for(const char * s : {"x", "some_file", "/a/b.c/d-e_f.h5", "two words", "a=b", "from file", "no", "0", "it's", "1.5e3"}) v.push_back({s, s}); break;
    case 'k': if(string(p.name) == "sph_kernel") {
        k({"cubic spline", "cubic_spline", "Cubic Spline"}, param::cubic_spline); k({"quintic spline"}, param::quintic_spline); k({"wendland c2", "Wendland C2"}, param::wendland_c2);
        k({"wendland c4"}, param::wendland_c4); k({"wendland c6", "WENDLAND_C6"}, param::wendland_c6); k({"gaussian"}, param::gaussian); k({"super gaussian"}, param::super_gaussian); k({"sinc ker", "sinc_ker"}, param::sinc_ker);
      } else if(string(p.name) == "eos_type") {
        k({"ideal fluid", "ideal_fluid"}, param::eos_ideal); k({"polytropic"}, param::eos_polytropic); k({"wd", "white dwarf", "White_Dwarf"}, param::eos_wd); k({"ppt", "piecewise polytropic"}, param::eos_ppt); k({"none", "no eos", "no_eos"}, param::eos_no_eos);
      } else { k({"constant"}, param::visc_constant); k({"cullen", "Cullen"}, param::visc_cullen); }
      break;
  }
  return v;
}
static string dir;
static void put(const string & f, const string & text) { FILE * o = fopen(f.c_str(), "w"); fwrite(text.data(), 1, text.size(), o); fclose(o); }
// runs f in a forked process; returns how it ended
struct End { bool exited; int code; string err, out; };
static End forked(const std::function<void(FILE *)> & f) {
  string of = dir + "/o" + std::to_string(getpid()), ef = dir + "/e" + std::to_string(getpid());
  fflush(0);
  pid_t pid = fork();
  if(!pid) {
    int e = open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(e, 2);
    FILE * o = fopen(of.c_str(), "w");
    f(o);
    fclose(o);
    _exit(0);
  }
  int st;
  waitpid(pid, &st, 0);
  auto rd = [](const string & p) { std::ifstream i(p); std::stringstream s; s << i.rdbuf(); return s.str(); };
  End r{(bool)WIFEXITED(st), WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st), rd(ef), rd(of)};
  unlink(of.c_str()); unlink(ef.c_str());
  return r;
}
// reads the given files one after the other in one process and compares all
// parameters with the model after each
struct File { string text; std::map<string, string> set; };
static void files(mc::Ctx & c, const char * key, const std::vector<File> & fs) {
  string fn = dir + "/p" + std::to_string(getpid()) + ".par";
  End e = forked([&](FILE * o) {
    std::map<string, string> model;
    for(auto & p : P) { model[p.name] = p.def; if(p.get() != p.def) fprintf(o, "default of %s is %s instead of %s\n", p.name, p.get().c_str(), p.def.c_str()); }
    for(size_t i = 0; i < fs.size(); ++i) {
      put(fn, fs[i].text);
      fprintf(o, "#%zu\n", i); fflush(o);
      if(i & 1) param::mpi_read_params(fn.c_str()); else param::read_params(fn.c_str());
      for(auto & s : fs[i].set) model[s.first] = s.second;
      for(auto & p : P) { string g = p.get(); if(g != model[p.name]) { fprintf(o, "file %zu: %s is \"%s\" instead of \"%s\" after reading:\n%s\n", i, p.name, g.c_str(), model[p.name].c_str(), fs[i].text.c_str()); model[p.name] = g; } }
    }
    fprintf(o, "#done\n");
  });
  unlink(fn.c_str());
  c.exec(fs.size());
  c.steps(fs.size());
  c.eval(fs.size() * P.size());
  size_t last = 0;
  string bad;
  { std::istringstream is(e.out); string l; while(std::getline(is, l)) { if(l[0] == '#') { if(l != "#done") last = atol(l.c_str() + 1); } else if(bad.size() < 1500) bad += l + "\n"; } }
  if(bad.size()) c.fail(key, bad);
  else if(!e.exited || e.code != 0 || e.out.find("#done") == string::npos)
    c.fail("crash", mc::fmt("reading a well-formed file ended with %s %d: ", e.exited ? "exit" : "signal", e.code) + fs[last].text + " stderr: " + e.err.substr(0, 300));
  for(auto & f : fs) { uint64_t h = 1; for(auto & s : f.set) h = mc::hs(mc::hs(h, s.first), s.second); c.outcome(h); }
}
static std::vector<string> forms(const string & n, const string & v, char kind, bool thorough) {
  std::vector<string> q = {v};
  bool sq = v.find('\'') == string::npos;
  q.push_back("\"" + v + "\"");
  if(sq) q.push_back("'" + v + "'");
  std::vector<string> r;
  const char * pre[] = {"", "  ", "\t"}, *mid[] = {"=", " = ", "\t=\t", "=  ", "   ="}, *post[] = {"", "  ", "\t", " # comment", "#comment", "  # a = b \"q\" 'r'", "\t#"};
  for(size_t a = 0; a < q.size(); ++a)
    for(int p = 0; p < 3; ++p) for(int m = 0; m < 5; ++m) for(int s = 0; s < 7; ++s) {
      if(!thorough && (p + m + s + a) % 3) continue;
      r.push_back(string(pre[p]) + n + mid[m] + q[a] + post[s]);
    }
  return r;
}
static void enumerate(mc::Ctx & c) {
  if(P.empty()) table();
  dir = getenv("MC_SCRATCH") ? getenv("MC_SCRATCH") : "/tmp";
  // 1. every parameter, every value, every way to write the line
  for(auto & p : P) for(auto & v : values(p))
    if(c.want([&] { return string("all ways to write ") + p.name + " = " + v.first; })) {
      std::vector<File> fs;
      for(auto & l : forms(p.name, v.first, p.kind, c.thorough)) {
        fs.push_back({l + "\n", {{p.name, v.second}}});
        if(fs.size() % 3 == 0) fs.back().text = l; // no newline at the end
      }
      // alternate with another value so that each line has to have its effect
      auto vs = values(p);
      std::vector<File> gs;
      for(size_t i = 0; i < fs.size(); ++i) { auto & w = vs[i % vs.size()]; gs.push_back(fs[i]); gs.push_back({string(p.name) + " = " + w.first + "\n", {{p.name, w.second}}}); }
      files(c, "assign", gs);
    }
  // string lengths up to the limit
  for(auto & p : P) if(p.kind == 's')
    for(int n : {1, 2, 100, 255, 256, 509, 510, 511, 512, 513, 600, 1100, 5000})
      for(int quoted = 0; quoted < 2; ++quoted)
        if(c.want([&] { return mc::fmt("%s = %sstring of %d characters", p.name, quoted ? "quoted " : "", n); })) {
          string v(n, 'x');
          for(int i = 0; i < n; ++i) v[i] = 'a' + i % 26;
          string fn = dir + "/p" + std::to_string(getpid()) + ".par";
          put(fn, string(p.name) + " = " + (quoted ? "\"" + v + "\"" : v) + "\n");
          End e = forked([&](FILE * o) {
            param::read_params(fn.c_str());
            for(auto & q : P) { string w = string(q.name) == p.name ? v : q.def; if(q.get() != w) { fprintf(o, "%s is \"%s\" instead of \"%s\"\n", q.name, q.get().c_str(), w.c_str()); } }
            fprintf(o, "#done\n");
          });
          unlink(fn.c_str());
          c.exec();
          bool stored = e.exited && e.code == 0 && e.out == "#done\n", refused = e.exited && e.code != 0;
          c.check(stored || (refused && n > 510), "long-string", mc::fmt("a string of %d characters for %s: %s %d %s %s", n, p.name, e.exited ? "exit" : "signal", e.code, e.out.substr(0, 200).c_str(), e.err.substr(0, 300).c_str()));
          c.outcome(mc::mix(n, stored));
        }
  // 2. all sequences of lines from an alphabet
  struct L { const char * t; const char * n; const char * v; };
  static const L A[] = {{"", 0, 0}, {"   \t ", 0, 0}, {"# nparticles = 3", 0, 0}, {" \t# comment only", 0, 0},
    {"nparticles = 5", "nparticles", "5"}, {"nparticles=77 # five", "nparticles", "77"}, {"sph_viscosity = cullen", "sph_viscosity", "1"}, {"sph_viscosity_alpha = 0.5", "sph_viscosity_alpha", "0.5"},
    {"sph_viscosity_alpha_max = 3", "sph_viscosity_alpha_max", "3"}, {"poly_gamma = 2", "poly_gamma", "2"}, {"poly_gamma2 = 3", "poly_gamma2", "3"}, {"initial_data_prefix = 'a b'", "initial_data_prefix", "a b"},
    {"initial_data_prefix = c", "initial_data_prefix", "c"}, {"out_h5data_every = 4", "out_h5data_every", "4"}, {"out_h5data_dt = 4", "out_h5data_dt", "4"}, {"equal_mass = no", "equal_mass", "0"}, {"equal_mass = \"yes\"", "equal_mass", "1"}};
  const int NA = sizeof A / sizeof *A;
  int len = c.thorough ? 4 : 3;
  for(int a = 0; a < NA; ++a) for(int b = 0; b < NA; ++b)
    if(c.want([&] { return mc::fmt("all files of %d lines starting with '%s', '%s'", len, A[a].t, A[b].t); })) {
      int n = len == 4 ? NA * NA : NA;
      for(int blk = 0; blk < n; blk += 64) {
        std::vector<File> fs;
        for(int r = blk; r < std::min(n, blk + 64); ++r) {
          File f;
          for(int k : {a, b, r % NA, len == 4 ? r / NA : -1}) if(k >= 0) { f.text += string(A[k].t) + "\n"; if(A[k].n) f.set[A[k].n] = A[k].v; }
          if(r % 2) f.text.pop_back();
          // undo what the previous file did, so that each starts from the defaults
          string undo;
          File u;
          for(auto & s : f.set) for(auto & p : P) if(s.first == p.name) { string d = p.def; if(p.kind == 'k') d = "constant"; if(p.kind == 'b') d = d == "1" ? "yes" : "no"; u.text += s.first + " = " + d + "\n"; u.set[s.first] = p.def; }
          fs.push_back(f);
          if(u.text.size()) fs.push_back(u);
        }
        files(c, "sequence", fs);
      }
    }
  // all parameters in one file, forwards and backwards
  for(int how = 0; how < 4; ++how)
    if(c.want([&] { return mc::fmt("every parameter in one file, order %d", how); })) {
      File f;
      auto q = P;
      if(how & 1) std::reverse(q.begin(), q.end());
      for(size_t i = 0; i < q.size(); ++i) { auto vs = values(q[i]); auto & v = vs[(how / 2 + 1 + i) % vs.size()]; f.text += string(q[i].name) + " = " + v.first + "\n"; f.set[q[i].name] = v.second; }
      files(c, "all", {f});
    }
  // 3. wrong lines at every place of a file
  std::vector<string> bad = {"nosuchparameter = 1", "nparticle = 5", "nparticless = 5", "Nparticles = 5", "= 5", "nparticles", "nparticles 5", "nparticles =", "nparticles =   ", "nparticles = # 5", "  = # x", "sph_kernel = nosuch", "eos_type = nosuch", "sph_viscosity = nosuch", "foo # nparticles = 5", "x", "nparticles # = 5", "initial_data_prefix = # none", "equal_mass =#", "=", "param::nparticles = 5", "_nparticles = 5", "initial_data_prefix"};
  for(auto & p : P) { bad.push_back(string(p.name) + "_ = 1"); bad.push_back(string("x") + p.name + " = 1"); bad.push_back(string(p.name) + " ="); }
  static const char * good[] = {"", "nparticles = 5\n", "# c\n", "equal_mass = no\n\n"};
  for(auto & b : bad)
    if(c.want([&] { return "wrong line: " + b; }))
      for(auto g : good) for(auto h : good) {
        string fn = dir + "/p" + std::to_string(getpid()) + ".par";
        put(fn, string(g) + b + "\n" + h);
        End e = forked([&](FILE * o) { param::read_params(fn.c_str()); fprintf(o, "#done\n"); });
        unlink(fn.c_str());
        c.exec();
        bool stopped = (e.exited && e.code != 0) || (!e.exited && e.code == SIGABRT && e.err.find("Assertion") != string::npos);
        if(!c.check(stopped, "accepted", "the wrong line is accepted or crashes the reader: " + b + mc::fmt(" (%s %d) ", e.exited ? "exit" : "signal", e.code) + e.err.substr(0, 300))) break;
        c.outcome(mc::mix(e.code, e.exited));
      }
  if(c.want([&] { return string("file that does not exist"); })) {
    End e = forked([&](FILE * o) { param::read_params((dir + "/does-not-exist.par").c_str()); fprintf(o, "#done\n"); });
    c.exec();
    c.check(e.exited && e.code != 0, "accepted", "a missing file is accepted");
  }
}
int main(int argc, char ** argv) { return mc::main_run(argc, argv, enumerate); }
