// Density profiles: unit mass, cumulative mass, slope, tables.
#include "phys.h"
#include "density_profiles.h"
#include <sys/wait.h>
namespace dp = density_profiles;
static const double S = D == 1 ? 2 : D == 2 ? 2 * M_PI : 4 * M_PI;
static string tab() { return string(getenv("MC_SCRATCH") ? getenv("MC_SCRATCH") : "/tmp") + mc::fmt("/prof.%d", getpid()); }
// five-point Gauss quadrature of S r^(D-1) rho
static double shell(double a, double b) {
  static const double X[] = {0, .5384693101056831, -.5384693101056831, .9061798459386640, -.9061798459386640}, W[] = {.5688888888888889, .4786286704993665, .4786286704993665, .2369268850561891, .2369268850561891};
  double s = 0;
  for(int k = 0; k < 5; ++k) { double r = .5 * (a + b) + .5 * (b - a) * X[k]; s += W[k] * pow(r, D - 1) * dp::spherical_density_profile(r); }
  return .5 * (b - a) * S * s;
}
static void use(const string & prof, double q) { set("density_profile", "\"" + prof + "\""); set("mesa_rim_width", q); dp::select(); }
static void profile(mc::Ctx & c, const string & prof, double q, int N) {
  std::vector<double> r;
  for(int i = 0; i <= N; ++i) r.push_back((double)i / N);
  if(prof == "mesa") { r.push_back(1 - q); r.push_back(.9999); }
  std::sort(r.begin(), r.end());
  double rho0 = dp::spherical_density_profile(0), M = 0;
  uint64_t hh = 3;
  c.check(fabs(dp::spherical_mass_profile(0)) <= 1e-14, "mass at the centre", mc::fmt("%g", dp::spherical_mass_profile(0)));
  c.check(fabs(dp::spherical_mass_profile(1) - 1) <= 1e-9, "mass at the edge is not one", mc::fmt("%.17g", dp::spherical_mass_profile(1)));
  for(size_t i = 0; i < r.size(); ++i) {
    double rho = dp::spherical_density_profile(r[i]), m = dp::spherical_mass_profile(r[i]), s = dp::spherical_drho_dr(r[i]);
    hh = mc::hd(mc::hd(hh, rho), m);
    c.check(rho >= 0 && std::isfinite(rho), "negative density", mc::fmt("r=%g: %g", r[i], rho));
    if(i == 0 || r[i] == r[i - 1]) continue;
    double m0 = dp::spherical_mass_profile(r[i - 1]), qd = shell(r[i - 1], r[i]), cut = 0;
    if(prof == "mesa" && r[i] > .9998) cut = S * rho0 * 1e-4 * 3e-4 / q; // the rim is cut at .9999
    c.check(m >= m0 - 1e-14, "mass not monotone", mc::fmt("m(%g)=%.17g m(%g)=%.17g", r[i - 1], m0, r[i], m));
    c.check(fabs(m - m0 - qd) <= 1e-12 + 1e-9 * qd + cut + 4e-15 / (q * q), "mass is not the integral of the density", mc::fmt("between r=%g and %g: %.12g, integral %.12g", r[i - 1], r[i], m - m0, qd));
    M += qd;
    double a = r[i - 1], b = r[i], mid = .5 * (a + b);
    if(cut == 0) {
      double h = .25 * (b - a), g = (dp::spherical_density_profile(mid + h) - dp::spherical_density_profile(mid - h)) / (2 * h), w = dp::spherical_drho_dr(mid);
      c.check(fabs(g - w) <= 1e-7 * (fabs(w) + rho0) + 1e-15 * rho0 / h * 4, "slope is not the derivative of the density", mc::fmt("r=%g: %.10g, difference quotient %.10g", mid, w, g));
    }
  }
  c.check(fabs(M - 1) <= 1e-9 + (prof == "mesa" ? S * rho0 * 3e-8 / q : 0), "total mass is not one", mc::fmt("%.12g", M));
  c.outcome(hh);
  c.exec();
}
struct Tab { std::vector<double> r; int poly; int form; };
static double pv(int poly, int col, double r) { // what column col is at r
  static const double C[4][4] = {{1, 0, 0, 0}, {2, -1, 0, 0}, {.3, 1.7, -.9, .2}, {1e-3, -40, 17, 1. / 3}};
  auto & k = C[(poly + col) % 4];
  return k[0] + r * (k[1] + r * (k[2] + r * k[3]));
}
static double rough(int i, int col) { return 1. / (3 + (7 * i + 3 * col) % 11) * ((i + col) % 3 ? 1 : -1e5); }
static void write(const Tab & t) {
  FILE * o = fopen(tab().c_str(), "w");
  if(t.form & 1) fprintf(o, "# radius density mass slope\n#\n");
  for(size_t i = 0; i < t.r.size(); ++i) {
    auto v = [&](int k) { return t.poly < 4 ? pv(t.poly, k, t.r[i]) : rough(i, k); };
    fprintf(o, t.form & 2 ? "  %.17g   %.17g  %.17g   %.17g  \n" : "%.17e\t%.17e %.17e %.17e\n", t.r[i], v(0), v(1), v(2));
    if((t.form & 4) && i % 2) fprintf(o, "\n# comment\n   \n");
  }
  fclose(o);
}
static void table(mc::Ctx & c, const Tab & t) {
  write(t);
  set("input_density_file", "\"" + tab() + "\"");
  set("density_profile", "\"from file\"");
  dp::select();
  unlink(tab().c_str());
  auto f = [&](int k, double r) { return k == 0 ? dp::spherical_density_profile(r) : k == 1 ? dp::spherical_mass_profile(r) : dp::spherical_drho_dr(r); };
  uint64_t hh = 1;
  int n = t.r.size();
  for(int k = 0; k < 3; ++k) {
    for(int i = 0; i < n; ++i) {
      double w = t.poly < 4 ? pv(t.poly, k, t.r[i]) : rough(i, k), g = f(k, t.r[i]);
      c.check(fabs(g - w) <= 1e-13 * fabs(w), "node not reproduced", mc::fmt("column %d row %d of %d: %.17g, table %.17g", k, i, n, g, w));
      hh = mc::hd(hh, g);
      if(i && t.poly < 4) for(double x : {.01, .25, .5, .77, .999}) {
        double r = t.r[i - 1] + x * (t.r[i] - t.r[i - 1]);
        c.check(fabs(f(k, r) - pv(t.poly, k, r)) <= 1e-9 * (fabs(pv(t.poly, k, r)) + 50), "interpolation is not cubic", mc::fmt("column %d r=%g: %.17g want %.17g", k, r, f(k, r), pv(t.poly, k, r)));
      }
      if(i && t.poly >= 4) for(double x : {.1, .5, .9}) c.check(std::isfinite(f(k, t.r[i - 1] + x * (t.r[i] - t.r[i - 1]))), "interpolation not finite", mc::fmt("row %d", i));
    }
    double L = t.r[n - 1] - t.r[0];
    for(double d : {1e-9, 1e-3, 1., 1e9}) for(double r : {t.r[0] - d * L, t.r[n - 1] + d * L}) c.check(f(k, r) == 0, "evaluated outside its table", mc::fmt("column %d at r=%g, table from %g to %g: %g", k, r, t.r[0], t.r[n - 1], f(k, r)));
  }
  c.outcome(hh);
  c.exec();
}
// exit status of the program when it runs fn
template<class F> static int status(F && fn) {
  fflush(stdout);
  pid_t p = fork();
  if(p == 0) { fn(); _exit(0); }
  int st;
  waitpid(p, &st, 0);
  return WIFSIGNALED(st) ? 1000 + WTERMSIG(st) : WEXITSTATUS(st);
}
static void go(mc::Ctx & c) {
  bool T = c.thorough;
  std::vector<double> Q;
  for(int i = 1; i <= (T ? 100 : 25); ++i) Q.push_back((double)i / (T ? 100 : 25));
  Q.insert(Q.end(), {.005, .001, .999, 1. / 3});
  for(auto prof : {"constant", "parabolic"}) if(c.want([&] { return mc::fmt("%dD %s", D, prof); })) { use(prof, .1); profile(c, prof, 1, T ? 5000 : 1000); }
  for(double q : Q) if(c.want([&] { return mc::fmt("%dD mesa rim %g", D, q); })) { use("mesa", q); profile(c, "mesa", q, T ? 5000 : 1000); }
  // every sequence of selections: the last one counts
  struct Sel { const char * p; double q; int tab; };
  const Sel sel[] = {{"constant", .1, 0}, {"parabolic", .1, 0}, {"mesa", .1, 0}, {"mesa", .6, 0}, {"from file", 0, 1}, {"from file", 0, 2}, {"CONSTANT", 0, 0}, {"Mesa", .3, 0}};
  auto tables = [&](int k) { Tab t; for(int i = 0; i < (k == 1 ? 9 : 5); ++i) t.r.push_back(i * .2 + (k == 2 ? .05 * i * i : 0)); t.poly = k; t.form = k; return t; };
  int L = T ? 4 : 3;
  std::vector<int> prog;
  std::function<void()> rec = [&] {
    if((int)prog.size() == L) {
      if(c.want([&] { string d = mc::fmt("%dD selections", D); for(int k : prog) d += mc::fmt(" %s(%g,%d)", sel[k].p, sel[k].q, sel[k].tab); return d; })) for(int k : prog) {
        string n = sel[k].p;
        for(auto & ch : n) ch = tolower(ch);
        if(sel[k].tab) table(c, tables(sel[k].tab));
        else { use(sel[k].p, sel[k].q); profile(c, n, sel[k].q, 20); }
        c.steps(1);
      }
      return;
    }
    for(int k = 0; k < 8; ++k) { prog.push_back(k); rec(); prog.pop_back(); }
  };
  rec();
  // tables: every spacing pattern (steps 1, 2 or 5) of 4..7 nodes, two origins, five contents, eight layouts
  for(int n = 4; n <= (T ? 8 : 6); ++n) {
    int tot = 1;
    for(int i = 1; i < n; ++i) tot *= 3;
    for(int m = 0; m < tot; ++m) for(double r0 : {0., .3}) for(int poly = 0; poly < 5; ++poly) for(int form = 0; form < 8; ++form) {
      if(n > 5 && form != m % 8) continue;
      if(c.want([&] { return mc::fmt("%dD table of %d nodes, spacing pattern %d from %g, contents %d layout %d", D, n, m, r0, poly, form); })) {
        Tab t;
        t.poly = poly; t.form = form;
        t.r.push_back(r0);
        for(int i = 1, k = m; i < n; ++i, k /= 3) t.r.push_back(t.r.back() + (k % 3 == 0 ? 1. : k % 3 == 1 ? 2. : 5.) / 7);
        table(c, t);
      }
    }
  }
  for(int n = 0; n < 4; ++n) if(c.want([&] { return mc::fmt("%dD table of %d nodes (too few)", D, n); })) {
    Tab t{{}, 1, 1};
    for(int i = 0; i < n; ++i) t.r.push_back(i * .5);
    write(t);
    set("input_density_file", "\"" + tab() + "\"");
    set("density_profile", "\"from file\"");
    int st = status([&] { dp::select(); for(double r : {0., .25, .5, .9}) dp::spherical_density_profile(r); });
    c.check(st != 0 && st < 1000, "a table that is too short is accepted", mc::fmt("%d nodes: status %d", n, st));
    unlink(tab().c_str());
    c.exec();
  }
  if(c.want([&] { return mc::fmt("%dD missing table, unknown profile", D); })) {
    set("input_density_file", "\"/nonexistent/profile\"");
    set("density_profile", "\"from file\"");
    int st = status([&] { dp::select(); });
    c.check(st != 0 && st < 1000, "missing table accepted", mc::fmt("status %d", st));
    set("density_profile", "\"flat\"");
    st = status([&] { dp::select(); });
    c.check(st != 0 && st < 1000, "unknown profile accepted", mc::fmt("status %d", st));
    c.exec();
  }
}
int main(int n, char ** a) { return mc::main_run(n, a, go, 8); }
