// Equations of state against their defining relations, all evaluation orders over small sets of particles.
#include "mc.h"
#include "space_vector.h"
#include "tree.h"
#include "params.h"
#include "user.h"
#include "eos.h"
#include <sys/wait.h>
using std::string;
struct E { string name; double g1, g2, thr; };
static void pick(const E & e) {
  param::set_param("eos_type", ("\"" + e.name + "\"").c_str());
  param::set_param("poly_gamma", mc::fmt("%.17g", e.g1).c_str());
  param::set_param("poly_gamma2", mc::fmt("%.17g", e.g2).c_str());
  param::set_param("ppt_density_thr", mc::fmt("%.17g", e.thr).c_str());
  eos::select();
}
struct S { double rho, P, u, Ye; };
static body make(const S & s) {
  body b;
  b.setDensity(s.rho); b.setPressure(s.P); b.setInternalenergy(s.u); b.setElectronfraction(s.Ye); b.setAdiabatic(-7); b.setSoundspeed(-7);
  b.set_mass(3.); b.setTemperature(11.); b.setEntropy(12.); b.setTotalenergy(13.);
  return b;
}
static bool near(double a, double b, double t) { return fabs(a - b) <= t * std::max(fabs(a), fabs(b)); }
static double P(const E & e, double rho, double K, double u, double Ye) { // defining relations
  if(e.name == "polytropic") return K * std::pow(rho, e.g1);
  if(e.name == "ideal fluid") return (e.g1 - 1) * rho * u;
  if(e.name == "piecewise polytropic") return rho < e.thr ? K * std::pow(rho, e.g1) : K * std::pow(e.thr, e.g1 - e.g2) * std::pow(rho, e.g2);
  const long double A = 6.00233181e22L, B = 9.73932099e5L;
  long double x = cbrtl(rho * (long double)Ye / B);
  return A * (x * (2 * x * x - 3) * sqrtl(x * x + 1) + 3 * asinhl(x));
}
static double cs2(const E & e, double rho, double K, double u, double Ye) { // dP/drho at constant entropy
  if(e.name == "polytropic") return e.g1 * K * std::pow(rho, e.g1 - 1);
  if(e.name == "ideal fluid") return e.g1 * (e.g1 - 1) * u;
  if(e.name == "piecewise polytropic") return rho < e.thr ? e.g1 * K * std::pow(rho, e.g1 - 1) : e.g2 * K * std::pow(e.thr, e.g1 - e.g2) * std::pow(rho, e.g2 - 1);
  const double A = 6.00233181e22, B = 9.73932099e5;
  double x = cbrt(rho * Ye / B);
  return 8 * A / (3 * B) * Ye * x * x / sqrt(1 + x * x);
}
// Executes a program of operations "particle x function" and compares every particle with the model after each.
static uint64_t run(mc::Ctx & c, const E & e, std::vector<S> st, const std::vector<int> & prog) {
  pick(e);
  std::vector<body> b;
  for(auto & s : st) b.push_back(make(s));
  int n = st.size();
  std::vector<double> K(n, -7), cs(n, -7);
  uint64_t h = 3;
  double tol = e.name == "wd" ? 1e-6 : 1e-12;
  string id = e.name;
  for(size_t k = 0; k < prog.size(); ++k) {
    int i = prog[k] % n, op = prog[k] / n;
    S & s = st[i];
    switch(op) {
      case 0: // init
        eos::init(b[i]);
        if(e.name == "wd") s.u = b[i].getInternalenergy();
        else {
          K[i] = b[i].getAdiabatic();
          double p = e.name == "ideal fluid" ? K[i] * std::pow(s.rho, e.g1) : P(e, s.rho, K[i], s.u, s.Ye);
          c.check(near(p, s.P, tol), id + ": init loses the pressure", mc::fmt("step %zu particle %d rho=%g P=%g K=%g", k, i, s.rho, s.P, K[i]));
        }
        break;
      case 1: eos::compute_pressure(b[i]); s.P = P(e, s.rho, K[i], s.u, s.Ye); break;
      case 2: eos::compute_soundspeed(b[i]); cs[i] = sqrt(cs2(e, s.rho, K[i], s.u, s.Ye)); break;
      case 3: // internal energy from adiabat
        eos::compute_internal_energy(b[i]);
        s.u = b[i].getInternalenergy();
        if(e.name == "ideal fluid" || e.name == "polytropic") c.check(near(s.u * (e.g1 - 1) * s.rho, K[i] * std::pow(s.rho, e.g1), tol), id + ": internal energy", mc::fmt("step %zu rho=%g K=%g u=%g", k, s.rho, K[i], s.u));
        break;
    }
    for(int j = 0; j < n; ++j) {
      c.check(b[j].getDensity() == st[j].rho && b[j].getElectronfraction() == st[j].Ye && b[j].mass() == 3. && b[j].getTemperature() == 11. && b[j].getTotalenergy() == 13., id + ": other fields changed", mc::fmt("step %zu particle %d", k, j));
      c.check(near(b[j].getPressure(), st[j].P, tol), id + ": pressure", mc::fmt("step %zu (op %d on %d) particle %d rho=%g: %.17g want %.17g", k, op, i, j, st[j].rho, b[j].getPressure(), st[j].P));
      c.check(near(b[j].getSoundspeed(), cs[j], tol), id + ": sound speed", mc::fmt("step %zu (op %d on %d) particle %d rho=%g Ye=%g u=%g: %.17g want %.17g", k, op, i, j, st[j].rho, st[j].Ye, st[j].u, b[j].getSoundspeed(), cs[j]));
      c.check(b[j].getInternalenergy() == st[j].u && b[j].getAdiabatic() == K[j], id + ": unexpected state change", mc::fmt("step %zu (op %d on %d) particle %d", k, op, i, j));
      h = mc::hd(mc::hd(mc::hd(mc::hd(h, b[j].getPressure()), b[j].getSoundspeed()), b[j].getInternalenergy()), b[j].getAdiabatic());
    }
    c.state(h);
  }
  return h;
}
// internal energy and pressure satisfy the first law along the adiabat: u(rho2)-u(rho1) = int P/rho^2
static void law(mc::Ctx & c, const E & e, double r0, double f, double K, double Ye) {
  static const double X[4] = {-0.8611363115940526, -0.3399810435848563, 0.3399810435848563, 0.8611363115940526}, W[4] = {0.3478548451374538, 0.6521451548625461, 0.6521451548625461, 0.3478548451374538};
  pick(e);
  auto at = [&](double rho) { body b = make({rho, -1, -1, Ye}); b.setAdiabatic(K); eos::compute_internal_energy(b); if(e.name == "ideal fluid") {} eos::compute_pressure(b); return b; };
  { // fixes any state kept outside the particles
    body z = make({r0, P(e, r0, K, 1, Ye), 1, Ye});
    eos::init(z);
  }
  double a = r0, b = r0 * f, I = 0, cuts[3] = {a, b, b};
  if(e.name == "piecewise polytropic" && e.thr > a && e.thr < b) cuts[1] = e.thr;
  for(int s = 0; s < 2; ++s) for(int k = 0; k < 8; ++k) {
    double x = cuts[s] + (cuts[s + 1] - cuts[s]) * k / 8, y = cuts[s] + (cuts[s + 1] - cuts[s]) * (k + 1) / 8;
    for(int i = 0; i < 4; ++i) { double r = .5 * (x + y) + .5 * (y - x) * X[i]; I += W[i] * .5 * (y - x) * at(r).getPressure() / r / r; }
  }
  body A = at(a), B = at(b);
  c.check(near(B.getInternalenergy() - A.getInternalenergy(), I, e.name == "wd" ? 1e-5 : 1e-9), e.name + ": first law", mc::fmt("rho %g to %g: energy difference %.15g, work %.15g", a, b, B.getInternalenergy() - A.getInternalenergy(), I));
  double q = A.getInternalenergy() * a / A.getPressure(); // absolute level: 1/(gamma-1), between 3/2 and 3 for degenerate electrons
  if(e.name == "wd") c.check(q > 1.4999 && q < 3.0001, "wd: internal energy", mc::fmt("rho=%g u*rho/P=%g", a, q));
  else if(e.name != "piecewise polytropic" || a < e.thr) c.check(e.name == "ideal fluid" || near(q, 1 / (e.g1 - 1), 1e-12), e.name + ": internal energy", mc::fmt("rho=%g u*rho/P=%.17g", a, q));
  // sound speed is the slope of the pressure
  double d = 1e-4;
  if(e.name != "ideal fluid" && !(e.name == "piecewise polytropic" && a * (1 - d) < e.thr && a * (1 + d) >= e.thr)) {
    double sl = (at(a * (1 + d)).getPressure() - at(a * (1 - d)).getPressure()) / (2 * d * a);
    body z = at(a);
    eos::compute_soundspeed(z);
    c.check(near(z.getSoundspeed(), sqrt(sl), 1e-5), e.name + ": sound speed is not the slope of the pressure", mc::fmt("rho=%g: c=%.10g, sqrt(dP/drho)=%.10g", a, z.getSoundspeed(), sqrt(sl)));
  }
  c.outcome(mc::hd(mc::hd(5, I), A.getInternalenergy()));
}
static void go(mc::Ctx & c) {
  std::vector<E> es;
  for(double g : {1.4, 5. / 3, 2., 1.1, 3.}) es.push_back({"polytropic", g, 2.5, 5e14}), es.push_back({"ideal fluid", g, 2.5, 5e14});
  es.push_back({"wd", 1.4, 2.5, 5e14});
  for(double t : {5e14, 1., 1e-3, 100.}) for(auto g : {std::pair<double, double>{1.4, 2.5}, {2.5, 1.4}, {1.31, 2.75}, {2., 2.}}) es.push_back({"piecewise polytropic", g.first, g.second, t});
  // grid: each state alone, all operations
  for(auto & e : es) {
    std::vector<double> rh = {1e-10, 1e-4, .5, 1, 2, 1e3, 1e6};
    if(e.name == "wd") rh = {3e3, 1e5, 1e6, 2e6, 1e7, 1e8, 1e10, 1e12};
    if(e.name == "piecewise polytropic") rh = {e.thr * 1e-3, e.thr * .5, std::nextafter(e.thr, 0.), e.thr, std::nextafter(e.thr, 1e300), e.thr * 1.5, e.thr * 1e3};
    for(double r : rh) for(double p : {1e-6, 1., 3e5}) for(double y : {.5, .4, 1.}) if(e.name == "wd" ? p == 1 : y == .5)
      if(c.want([&] { return mc::fmt("%s gamma %g %g thr %g: rho=%g P=%g Ye=%g", e.name.c_str(), e.g1, e.g2, e.thr, r, p, y); })) {
        S s{r, p, e.name == "ideal fluid" ? p / (e.g1 - 1) / r : .25, y};
        c.outcome(run(c, e, {s}, {0, 1, 2, 3, 1, 2}));
        c.exec();
        double K = e.name == "piecewise polytropic" && r >= e.thr ? p / std::pow(r, e.g2) * std::pow(e.thr, e.g2 - e.g1) : p / std::pow(r, e.g1);
        for(double f : {1.01, 1.5, 3.}) law(c, e, r, f, K, y);
      }
  }
  // all evaluation orders over two (thorough three) particles in different regimes
  int n = c.thorough ? 3 : 2, L = c.thorough ? 6 : 5;
  for(auto & e : es) {
    if(e.g1 != 1.4 && e.g1 != 1.31) continue;
    double t = e.name == "piecewise polytropic" ? e.thr : e.name == "wd" ? 1e6 : 1.;
    std::vector<S> st = {{t * .5, 2., 3., .5}, {t * 2, 7., 1., .4}, {t, 1., 2., 1.}};
    st.resize(n);
    std::vector<int> prog;
    std::vector<bool> in(n);
    std::function<void()> rec = [&]() {
      if(prog.size() && c.want([&] { string d = mc::fmt("%s gamma %g %g thr %g program", e.name.c_str(), e.g1, e.g2, e.thr); for(int p : prog) d += mc::fmt(" %d.%d", p / n, p % n); return d; })) {
        c.outcome(run(c, e, st, prog));
        c.exec();
        c.steps(prog.size());
      }
      if((int)prog.size() == L) return;
      for(int p = 0; p < 4 * n; ++p) {
        int i = p % n, op = p / n;
        if(op && !in[i] && e.name != "ideal fluid" && e.name != "wd") continue; // adiabat undefined before init
        if(op == 3 && !in[i] && e.name != "wd") continue;
        bool was = in[i];
        if(!op) in[i] = true;
        prog.push_back(p);
        rec();
        prog.pop_back();
        in[i] = was;
      }
    };
    if(e.g2 == 2.5 && (e.name != "piecewise polytropic" || e.thr == 1.)) rec();
  }
  // no equation of state: nothing changes
  if(c.want([&] { return string("no eos"); })) {
    pick({"no eos", 1.4, 2.5, 1});
    body b = make({1, 2, 3, 4});
    b.setAdiabatic(5); b.setSoundspeed(6);
    eos::init(b); eos::compute_pressure(b); eos::compute_soundspeed(b); eos::compute_internal_energy(b);
    c.check(b.getDensity() == 1 && b.getPressure() == 2 && b.getInternalenergy() == 3 && b.getElectronfraction() == 4 && b.getAdiabatic() == 5 && b.getSoundspeed() == 6, "no eos: state changed", "");
    c.exec();
  }
  // restarted run: particles carry their adiabats from the file, init is never called; other parameters follow in the same process
  for(auto & e : es) for(auto & f : es) if(c.want([&] { return mc::fmt("restart with %s gamma %g %g thr %g, then %s gamma %g %g thr %g", e.name.c_str(), e.g1, e.g2, e.thr, f.name.c_str(), f.g1, f.g2, f.thr); })) {
    pid_t p = fork(); // initial state of the library
    if(!p) {
      bool ok = true;
      for(auto * q : {&e, &f}) {
        pick(*q);
        for(double r : {.5, 1., 2.}) {
          double rho = r * (q->name == "piecewise polytropic" ? q->thr : q->name == "wd" ? 1e6 : 1.);
          body b = make({rho, -1, 2., .5});
          b.setAdiabatic(3.);
          eos::compute_pressure(b);
          eos::compute_soundspeed(b);
          double w = P(*q, rho, 3., 2., .5);
          if(!near(b.getPressure(), w, 1e-6)) ok = false;
          if(!near(b.getSoundspeed(), sqrt(cs2(*q, rho, 3., 2., .5)), 1e-6)) ok = false;
        }
      }
      _exit(ok ? 0 : 3);
    }
    int st;
    waitpid(p, &st, 0);
    c.check(WIFEXITED(st) && WEXITSTATUS(st) == 0, (e.name == f.name ? e.name : e.name + "/" + f.name) + ": pressure without initialisation", "pressure or sound speed of particles that carry their adiabat differ from the defining relation");
    c.exec();
    c.outcome(st);
  }
}
int main(int n, char ** a) { return mc::main_run(n, a, go, 64); }
