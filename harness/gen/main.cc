// Initial-data generators: their files against the problems they stand for.
#include "../tree/common.h"
#include <cmath>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
using namespace mc;
using std::string; using std::vector; using std::map;
typedef int (*gen_t)(const char *);
typedef map<string, string> Par;
static string slurp(const char * f) { std::ifstream s(f); std::stringstream o; o << s.rdbuf(); return o.str(); }
static const Par DEF = {{"initial_data_prefix", "\"ic\""}, {"lattice_nx", "100"}, {"poly_gamma", "1.4"}, {"sph_eta", "1.5"}, {"lattice_type", "0"}, {"domain_type", "0"},
  {"box_length", "3"}, {"box_width", "1"}, {"box_height", "1"}, {"sphere_radius", "1"}, {"rho_initial", "1"}, {"pressure_initial", "1"}, {"equal_mass", "yes"}, {"density_ratio", "2"},
  {"flow_velocity", "0"}, {"gravity_acceleration_constant", "9.81"}, {"sedov_blast_energy", "1"}, {"sedov_blast_radius", ".05"}, {"noh_infall_velocity", ".1"}, {"sodtest_num", "1"},
  {"KH_A", ".025"}, {"KH_lambda", "0.16666666666666666"}, {"rt_perturbation_amplitude", ".2"}, {"rt_perturbation_stripe_width", ".1"}, {"rt_perturbation_mode", "1"},
  {"lattice_mismatch_tolerance", ".05"}, {"periodic_boundary_x", "no"}, {"periodic_boundary_y", "no"}, {"periodic_boundary_z", "no"}, {"density_profile", "\"constant\""},
  {"sph_kernel", "\"wendland c4\""}, {"modify_initial_data", "no"}, {"initial_dt", "1"}, {"lattice_perturbation_amplitude", "0"}, {"out_h5data_separate_iterations", "no"}};
struct Q { // the parameters of a case
  Par p;
  string s(const string & k) const { auto i = p.find(k); string v = i != p.end() ? i->second : DEF.at(k); return v.size() && v[0] == '"' ? v.substr(1, v.size() - 2) : v; }
  double d(const string & k) const { return atof(s(k).c_str()); }
  int i(const string & k) const { return atoi(s(k).c_str()); }
  bool b(const string & k) const { return s(k) == "yes"; }
  string text() const { string t; for(auto & k : p) t += k.first + " = " + k.second + "\n"; return t; }
  string line() const { string t; for(auto & k : p) t += k.first + "=" + k.second + " "; return t; }
};
struct File { int N = 0, step_n = 0; map<string, vector<double>> col; map<string, double> attr; vector<double> & operator[](const string & k) { return col[k]; } };
enum End { DONE, REFUSED, CRASHED };
// one run of a generator on one process in a process of its own
static End gen(Ctx & c, const string & g, int D, const Q & q, string & err) {
  auto & L = th::RankLibs<gen_t>::get("g" + g + std::to_string(D), "gen_entry");
  L.fn[0];
  { std::ofstream f("case.par"); f << q.text(); }
  unlink("gen.err");
  fflush(stdout);
  pid_t pid = fork();
  if(pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    int e = open("gen.err", O_WRONLY | O_CREAT | O_TRUNC, 0644);
    dup2(e, 1); dup2(e, 2);
    h5::thaw("store.bin");
    atexit([] { h5::freeze("store.bin"); });
    int ret = 77;
    sim::Sched sc; sc.prio = {0};
    gen_t f = L.fn[0];
    sim::Result s = sim::run(1, sc, [&](int) { ret = f("case.par"); });
    if(!s.ok) { fprintf(stderr, "%s: %s\n", s.key.c_str(), s.msg.c_str()); fflush(stderr); abort(); }
    fflush(stdout);
    h5::freeze("store.bin");
    _exit(ret ? 78 : 0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  c.exec();
  err = slurp("gen.err");
  if(err.size() > 300) err = err.substr(err.size() - 300);
  h5::thaw("store.bin");
  if(WIFSIGNALED(st)) { err = "signal " + std::to_string(WTERMSIG(st)) + " " + err; return CRASHED; }
  if(WEXITSTATUS(st)) { err = "exit " + std::to_string(WEXITSTATUS(st)) + " " + err; return WEXITSTATUS(st) == 78 ? CRASHED : REFUSED; }
  return DONE;
}
static bool fetch(Ctx & c, const string & file, File & f) {
  auto r = h5::load(file);
  if(!c.check(r && r->child.count("Step#0"), "file", file + " has no first step")) return false;
  c.check(r->child.size() == 1, "old steps", fmt("%zu steps", r->child.size()));
  for(auto & a : r->attr) { auto v = h5::as_d(a.second); if(v.size()) f.attr[a.first] = v[0]; }
  auto st = r->child["Step#0"];
  for(auto & a : st->attr) { auto v = h5::as_d(a.second); if(v.size()) f.attr["step." + a.first] = v[0]; }
  for(auto k : {"x", "y", "z", "vx", "vy", "h", "rho", "u", "P", "m", "id"}) {
    if(!c.check(st->child.count(k), "column", string(k) + " is missing")) return false;
    f.col[k] = h5::as_d(st->child[k]);
    if(f.col.size() == 1) f.N = f.col[k].size();
    if(!c.check((int)f.col[k].size() == f.N, "column length", fmt("%s %zu, x %d", k, f.col[k].size(), f.N))) return false;
  }
  f.col["vz"] = st->child.count("vz") ? h5::as_d(st->child["vz"]) : vector<double>(f.N, 0);
  return c.check(f.N > 0, "no particles", "");
}
static bool near(double a, double b, double t = 1e-9) { return std::isfinite(a) && fabs(a - b) <= t * std::max(fabs(a), fabs(b)) + 1e-13; }
static const double TOL = 1e-6; // tolerance of the domains
// volume of the cell of one particle of a lattice with nearest neighbours at dx
static double cell(int lt, int D, double dx) { return D == 1 || lt == 0 ? pow(dx, D) : D == 2 ? sqrt(.75) * dx * dx : sqrt(.5) * dx * dx * dx; }
static double row(int lt, int a, double dx) { return lt == 0 || a == 0 ? dx : a == 1 ? sqrt(.75) * dx : sqrt(2. / 3) * dx; }
// numbers of particles a box of this size can hold at this spacing
static void holds(Ctx & c, const char * what, int lt, int D, const double * len, double dx, long n) {
  double lo = 1, hi = 1;
  for(int a = 0; a < D; ++a) {
    double r = len[a] / row(lt, a, dx);
    double sh = lt == 0 ? 0 : a == 0 ? .5 : a == 1 && D == 3 ? 2. / 3 : 0; // rows and layers are shifted by these
    lo *= std::max(0., ceil(r - sh - 1e-4)); hi *= ceil(r + 1e-4);
  }
  c.check(n >= lo && n <= hi, "number", fmt("%s holds %ld particles, expected %g to %g", what, n, lo, hi));
}
static void common(Ctx & c, const string & g, int D, const Q & q, File & f, const double * lo, const double * hi) {
  double gam = q.d("poly_gamma"), kw = q.s("sph_kernel").find("wendland") == 0 || q.s("sph_kernel") == "cubic spline" ? 2 : 3;
  vector<long> id; 
  const char * X[] = {"x", "y", "z"}, *V[] = {"vx", "vy", "vz"};
  int lt = q.i("lattice_type");
  for(int i = 0; i < f.N; ++i) {
    double x[3] = {f["x"][i], f["y"][i], f["z"][i]}, m = f["m"][i], rho = f["rho"][i], h = f["h"][i], u = f["u"][i], P = f["P"][i];
    string w = fmt("particle %d of %d at %g %g %g: m %g rho %g h %g u %g P %g v %g %g %g", i, f.N, x[0], x[1], x[2], m, rho, h, u, P, f["vx"][i], f["vy"][i], f["vz"][i]);
    for(int a = 0; a < 3; ++a) {
      c.check(std::isfinite(x[a]) && std::isfinite(f[V[a]][i]), "finite", w);
      if(a >= D) c.check(x[a] == 0 && f[V[a]][i] == 0, "dimensions", w);
      else if(q.d("lattice_perturbation_amplitude") == 0) c.check(x[a] >= lo[a] - 1e-5 * (hi[a] - lo[a]) && x[a] <= hi[a] + 1e-5 * (hi[a] - lo[a]), "domain", w + fmt(" axis %d of [%g, %g]", a, lo[a], hi[a]));
    }
    c.check(std::isfinite(m) && m > 0 && std::isfinite(rho) && rho > 0 && std::isfinite(h) && h > 0 && std::isfinite(P) && P > 0, "positive", w);
    c.check(near(P, (gam - 1) * rho * u), "equation of state", w);
    if(g != "wtunnel") c.check(near(h, q.d("sph_eta") * kw * pow(m / rho, 1. / D)), "smoothing length", w + fmt(" kernel width %g", kw));
    id.push_back(f["id"][i]);
  }
  std::sort(id.begin(), id.end());
  c.check(std::unique(id.begin(), id.end()) == id.end(), "ids", "not distinct");
  if(g != "sedov" && g != "noh") c.check(f.attr.count("nparticles") && f.attr["nparticles"] == f.N, "announced number", fmt("%g of %d", f.attr["nparticles"], f.N));
  if(g != "sedov" && g != "noh") c.check(f.attr.count("dimension") && f.attr["dimension"] == D, "announced dimension", fmt("%g", f.attr["dimension"]));
  // nearest neighbours by sorting along x
  if(lt < 4) {
    vector<int> o(f.N); for(int i = 0; i < f.N; ++i) o[i] = i;
    std::sort(o.begin(), o.end(), [&](int a, int b) { return f["x"][a] < f["x"][b]; });
    double dmin = 1e300; int ba = 0, bb = 0;
    auto & cx = f["x"], & cy = f["y"], & cz = f["z"];
    for(int a = 0; a < f.N; ++a) for(int b = a + 1; b < f.N && cx[o[b]] - cx[o[a]] < dmin; ++b) {
      int i = o[a], j = o[b];
      double d = sqrt((cx[i] - cx[j]) * (cx[i] - cx[j]) + (cy[i] - cy[j]) * (cy[i] - cy[j]) + (cz[i] - cz[j]) * (cz[i] - cz[j]));
      if(d < dmin) dmin = d, ba = i, bb = j;
    }
    double s = 1e300; // smallest particle
    for(int i = 0; i < f.N; ++i) s = std::min(s, pow(f["m"][i] / f["rho"][i], 1. / D));
    if(f.N > 1) c.check(dmin > (g == "KH" || g == "RT" || g == "sodtube" ? .02 : .4) * (q.d("lattice_perturbation_amplitude") > 0 ? 1e-6 : 1) * s, "distinct positions", fmt("particles %d and %d are %g apart at (%g %g %g), size of a particle %g", ba, bb, dmin, cx[ba], cy[ba], cz[ba], s));
  }
}
static double dsum(File & f, const char * k) { double s = 0; for(double v : f[k]) s += v; return s; }
// the first period not much below W that holds both lattices up to the tolerance
static double per_row(int lt, int a, double dx) { return row(lt, a, dx) * (lt == 0 || a == 0 ? 1 : a == 1 || lt == 1 ? 2 : 3); }
static double fit(double W, double d1, double d2, double tol) {
  double r = 0;
  for(int up = 0; up < 2; ++up) for(int j = int(W / d1) - 1; ; ++j) {
    double p = j * d1, k = up ? ceil(p / d2 - 1e-6) : floor(p / d2 + 1e-6);
    if(j > 100 * W / d1) { r = 1e300; break; }
    if(j > 0 && fabs(k * d2 - p) < tol * d2 * .999) { r = std::max(r, p); break; }
  }
  return r + d1 + d2;
}
// the region's particles
struct Reg { long n = 0; double lo[3] = {1e300, 1e300, 1e300}, hi[3] = {-1e300, -1e300, -1e300}, m = 0; void add(File & f, int i) { ++n; m += f["m"][i]; const char * X[] = {"x", "y", "z"}; for(int a = 0; a < 3; ++a) lo[a] = std::min(lo[a], f[X[a]][i]), hi[a] = std::max(hi[a], f[X[a]][i]); } };
static void vals(Ctx & c, File & f, int i, double rho, double P, const double * v, const char * w) {
  const char * V[] = {"vx", "vy", "vz"};
  string s = fmt("%s particle at %g %g %g: rho %g P %g v %g %g %g, expected rho %g P %g v %g %g %g", w, f["x"][i], f["y"][i], f["z"][i], f["rho"][i], f["P"][i], f["vx"][i], f["vy"][i], f["vz"][i], rho, P, v[0], v[1], v[2]);
  c.check(near(f["rho"][i], rho), "density", s); c.check(near(f["P"][i], P), "pressure", s);
  for(int a = 0; a < 3; ++a) c.check(fabs(f[V[a]][i] - v[a]) <= 1e-9 * (fabs(v[a]) + 1e-3), "velocity", s);
}
// spacing across a periodic boundary of period W equals the lattice's, up to the tolerance
static void seam(Ctx & c, const char * w, const Reg & r, int a, double W, double rowgap, double slack, double shift) {
  double gap = r.lo[a] + W - r.hi[a];
  c.check(gap > rowgap - slack - shift - 1e-4 * rowgap && gap < rowgap + slack + shift + 1e-4 * rowgap, "periodic lattice", fmt("%s: rows %g apart across the boundary of axis %d (period %g), lattice %g, tolerance %g", w, gap, a, W, rowgap, slack));
}
static void sodtube(Ctx & c, int D, const Q & q, File & f) {
  static const double T[7][6] = {{}, {1, .125, 1, .1, 0, 0}, {1, 1, .4, .4, -2, 2}, {1, 1, 1000, .01, 0, 0}, {1, 1, .01, 100, 0, 0}, {5.99924, 5.99242, 460.894, 46.0950, 19.5975, -6.19633}, {1, 1, 1e-6, 1e-6, 1, -1}};
  auto t = T[q.i("sodtest_num")];
  double L = q.d("box_length"), len[3] = {L, q.d("box_width"), q.d("box_height")};
  int nx = (q.i("lattice_nx") - 1) / 3 * 3 + 1, lt = q.i("lattice_type");
  double dx = L / (nx - 1), dx2 = q.b("equal_mass") ? dx * pow(t[0] / t[1], 1. / D) : dx;
  bool em = q.b("equal_mass");
  if(em && q.b("periodic_boundary_x")) len[0] = L / 3 + 2 * int(L / (3 * dx2)) * dx2;
  Reg all; for(int i = 0; i < f.N; ++i) all.add(f, i);
  bool adj[3] = {false, false, false};
  for(int a = 1; a < D; ++a) if(em && q.b(a == 1 ? "periodic_boundary_y" : "periodic_boundary_z")) {
    // the width is adjusted where both lattices fit; it is not written, but the lattices start at its lower end
    adj[a] = true; len[a] = -2 * all.lo[a];
  }
  double lo[3], hi[3];
  for(int a = 0; a < 3; ++a) hi[a] = len[a] / 2, lo[a] = -hi[a];
  common(c, "sodtube", D, q, f, lo, hi);
  Reg r[3];
  double l3 = L / 6, tol = TOL * L / 3 * 1.01 + 1e-12;
  for(int i = 0; i < f.N; ++i) {
    double x = f["x"][i];
    bool mid = x >= -l3 - tol && x < l3 - tol * .98;
    double v[3] = {mid ? t[4] : t[5], 0, 0};
    vals(c, f, i, mid ? t[0] : t[1], mid ? t[2] : t[3], v, mid ? "middle" : "outer");
    r[mid ? 1 : x < 0 ? 0 : 2].add(f, i);
  }
  for(int k = 0; k < 3; ++k) {
    double d = k == 1 ? dx : dx2, ln[3] = {k == 1 ? L / 3 : len[0] / 2 - L / 6, len[1], len[2]};
    static const char * W[] = {"left region", "middle region", "right region"};
    bool ad = adj[1] || adj[2];
    if(!ad) holds(c, W[k], lt, D, ln, d, r[k].n);
    double rho = k == 1 ? t[0] : t[1], V = 1;
    for(int a = 0; a < D; ++a) V *= ln[a];
    if(em) { if(r[k].n) c.check(near(r[k].m / r[k].n, t[0] * cell(lt, D, dx)), "mass", fmt("%g, expected density times cell %g", r[k].m / r[k].n, t[0] * cell(lt, D, dx))); }
    else if(k == 1) c.check(near(r[k].m, rho * V), "mass", fmt("%s has mass %g, expected %g", W[k], r[k].m, rho * V));
    // both outer regions share their particle mass
    double slack = q.d("lattice_mismatch_tolerance") * row(lt, 1, dx2) * (lt ? 2 : 1);
    for(int a = 1; a < D; ++a) if(adj[a] && r[k].n && ln[0] > 1.51 * d && int(q.d(a == 1 ? "box_width" : "box_height") / per_row(lt, a, dx)) > 1) { slack = q.d("lattice_mismatch_tolerance") * per_row(lt, a, dx2); seam(c, W[k], r[k], a, len[a], row(lt, a, d), slack, lt && a == 1 && D == 3 ? row(lt, 1, d) * 2 / 3 : 0); }
  }
  if(!em) { double V = 1, l[3] = {2 * (len[0] / 2 - L / 6), len[1], len[2]}; for(int a = 0; a < D; ++a) V *= l[a];
    if(near(r[0].n, r[2].n)) c.check(near(r[0].m + r[2].m, t[1] * V), "mass", fmt("outer regions have mass %g, expected %g", r[0].m + r[2].m, t[1] * V));
    else c.check(fabs(r[0].m + r[2].m - t[1] * V) <= .5 * t[1] * V, "mass", fmt("outer regions have mass %g, expected about %g", r[0].m + r[2].m, t[1] * V)); }
  for(int a = 1; a < D; ++a) if(adj[a]) { double W = q.d(a == 1 ? "box_width" : "box_height"), d1 = per_row(lt, a, dx), d2 = per_row(lt, a, dx2), mx = std::max(W, fit(W, d1, d2, q.d("lattice_mismatch_tolerance"))); c.check(len[a] > W - 2 * d1 - d2 && len[a] < mx * (1 + 1e-6), "adjusted box", fmt("axis %d: %g from %g, expected up to %g", a, len[a], W, mx)); }
}
static double profile(const string & n, double r) { return n == "parabolic" ? 1 - r * r : 1; } // relative to the centre
static void ball_or_box(int D, const Q & q, double * lo, double * hi, double & V, double & dx) {
  bool ball = q.i("domain_type") == 1;
  double R = q.d("sphere_radius"), l[3] = {q.d("box_length"), q.d("box_width"), q.d("box_height")};
  for(int a = 0; a < 3; ++a) hi[a] = ball ? R : l[a] / 2, lo[a] = -hi[a];
  V = ball ? (D == 1 ? 2 * R : D == 2 ? M_PI * R * R : 4. / 3 * M_PI * R * R * R) : D == 1 ? l[0] : D == 2 ? l[0] * l[1] : l[0] * l[1] * l[2];
  dx = (ball ? 2 * R : l[0]) / (q.i("lattice_nx") - 1);
}
static void lattice_count(Ctx & c, int D, const Q & q, File & f, const double * lo, const double * hi, double V, double dx) {
  int lt = q.i("lattice_type");
  if(lt > 2) return;
  double len[3]; for(int a = 0; a < 3; ++a) len[a] = hi[a] - lo[a];
  if(q.i("domain_type") == 0 || D == 1) return holds(c, "the box", lt, D, len, dx, f.N);
  double R = q.d("sphere_radius"), cl = cell(lt, D, dx), s = dx; // balls of radius R -+ one spacing
  auto vol = [&](double r) { return r <= 0 ? 0 : D == 2 ? M_PI * r * r : 4. / 3 * M_PI * r * r * r; };
  c.check(f.N * cl >= vol(R - s) && f.N * cl <= vol(R + s), "number", fmt("the sphere holds %d particles, expected %g to %g", f.N, vol(R - s) / cl, vol(R + s) / cl));
  for(int i = 0; i < f.N; ++i) if(q.d("lattice_perturbation_amplitude") == 0) c.check(f["x"][i] * f["x"][i] + f["y"][i] * f["y"][i] + f["z"][i] * f["z"][i] <= R * R * (1 + 1e-5), "domain", fmt("particle at %g %g %g outside the sphere", f["x"][i], f["y"][i], f["z"][i]));
}
static void sedov_noh(Ctx & c, const string & g, int D, const Q & q, File & f, File * before) {
  double lo[3], hi[3], V, dx, gam = q.d("poly_gamma"), rho0 = q.d("rho_initial"), R = q.d("sphere_radius");
  ball_or_box(D, q, lo, hi, V, dx);
  common(c, g, D, q, f, lo, hi);
  string pr = q.s("density_profile");
  double M = rho0 * V;
  if(pr == "parabolic") M *= D == 1 ? 2. / 3 : D == 2 ? .5 : .4;
  if(!before) { lattice_count(c, D, q, f, lo, hi, V, dx); c.check(near(dsum(f, "m"), M), "mass", fmt("total mass %g, expected %g", dsum(f, "m"), M)); }
  else { c.check(f.N == before->N, "number", fmt("%d of %d", f.N, before->N)); if(f.N != before->N) return; }
  bool pert = q.d("lattice_perturbation_amplitude") > 0;
  double E = 0, K = q.d("pressure_initial") / pow(rho0, gam), rb = q.d("sedov_blast_radius"); int inside = 0;
  double u_b = -1;
  for(int i = 0; i < f.N; ++i) {
    double x[3] = {f["x"][i], f["y"][i], f["z"][i]}, v[3] = {0, 0, 0};
    if(before) {
      for(auto k : {"m", "rho", "id", "h"}) c.check(f[k][i] == (*before)[k][i], "modified", fmt("%s of particle %d is %g, was %g", k, i, f[k][i], (*before)[k][i]));
      double h = f["h"][i];
      for(auto k : {"x", "y", "z"}) c.check(fabs(f[k][i] - (*before)[k][i]) <= (pert ? 8 * h * q.d("lattice_perturbation_amplitude") : 0), "modified", fmt("%s of particle %d is %g, was %g", k, i, f[k][i], (*before)[k][i]));
      for(int a = 0; a < 3; ++a) x[a] = (*before)[a == 0 ? "x" : a == 1 ? "y" : "z"][i];
    }
    double r = sqrt(x[0] * x[0] + x[1] * x[1] + x[2] * x[2]);
    double rho = before ? (*before)["rho"][i] : rho0 * profile(pr, r / R);
    if(pert && pr != "constant" && !before) rho = f["rho"][i];
    double rf = sqrt(f["x"][i] * f["x"][i] + f["y"][i] * f["y"][i] + f["z"][i] * f["z"][i]);
    double P = K * pow(rho, gam);
    if(g == "noh") {
      double w = q.d("noh_infall_velocity"), s = sqrt(f["vx"][i] * f["vx"][i] + f["vy"][i] * f["vy"][i] + f["vz"][i] * f["vz"][i]);
      double dot = f["x"][i] * f["vx"][i] + f["y"][i] * f["vy"][i] + f["z"][i] * f["vz"][i];
      if(rf > 1e-12) c.check(near(s, w) && near(-dot, w * rf, 1e-8), "velocity", fmt("particle at %g %g %g has velocity %g %g %g, expected %g towards the centre", f["x"][i], f["y"][i], f["z"][i], f["vx"][i], f["vy"][i], f["vz"][i], w));
      c.check(near(f["rho"][i], rho) && near(f["P"][i], P), "state", fmt("rho %g P %g, expected %g %g", f["rho"][i], f["P"][i], rho, P));
      continue;
    }
    for(auto k : {"vx", "vy", "vz"}) c.check(f[k][i] == 0, "velocity", fmt("%g", f[k][i]));
    c.check(near(f["rho"][i], rho, 1e-7), "density", fmt("%g at radius %g, expected %g", f["rho"][i], r, rho));
    double u0 = K * pow(f["rho"][i], gam - 1) / (gam - 1), ub = f["u"][i] - u0;
    if(pert && !before && fabs(rf - rb) < 8 * f["h"][i] * q.d("lattice_perturbation_amplitude")) { if(ub > 1e-9 * u0) { E += ub * f["m"][i]; ++inside; } continue; } // chosen by the place before the perturbation
    if(fabs(r - rb) < 1e-9) { if(fabs(ub) > 1e-9 * u0) E += ub * f["m"][i], ++inside; continue; }
    if(r < rb) { ++inside; E += ub * f["m"][i]; if(u_b < 0) u_b = ub; c.check(near(ub, u_b, 1e-6 + 1e-9 * u0 / std::max(ub, 1e-300)), "blast", fmt("energies %g and %g within the blast", ub, u_b)); }
    else c.check(near(f["u"][i], u0), "blast", fmt("internal energy %g at radius %g outside the blast of radius %g, expected %g", f["u"][i], r, rb, u0));
  }
  if(g == "sedov" && inside) {
    double back = 0; for(int i = 0; i < f.N; ++i) back += f["m"][i] * f["u"][i];
    c.check(fabs(E - q.d("sedov_blast_energy")) <= 1e-9 * (q.d("sedov_blast_energy") + back), "blast energy", fmt("%g in %d particles, expected %g", E, inside, q.d("sedov_blast_energy")));
  }
  c.outcome(mix(inside, f.N));
}
static void uniform(Ctx & c, const string & g, int D, const Q & q, File & f) { // implosion, collapse
  double lo[3], hi[3], V, dx, R = q.d("sphere_radius");
  ball_or_box(D, q, lo, hi, V, dx);
  common(c, g, D, q, f, lo, hi);
  lattice_count(c, D, q, f, lo, hi, V, dx);
  c.check(near(dsum(f, "m"), q.d("rho_initial") * V), "mass", fmt("total mass %g, expected %g", dsum(f, "m"), q.d("rho_initial") * V));
  double z[3] = {0, 0, 0};
  for(int i = 0; i < f.N; ++i) {
    double r = sqrt(f["x"][i] * f["x"][i] + f["y"][i] * f["y"][i] + f["z"][i] * f["z"][i]), P = q.d("pressure_initial"), rho = q.d("rho_initial");
    if(g == "implosion") {
      if(fabs(r - .8 * R) < 1e-9) continue;
      if(r > .8 * R) P = (q.d("poly_gamma") - 1) * rho * (1 + (1e4 - 1) * (r - .8 * R) / (.2 * R));
    }
    vals(c, f, i, rho, P, z, r > .8 * R ? "outer" : "inner");
  }
  c.outcome(f.N);
}
static void fluid(Ctx & c, int D, const Q & q, File & f) {
  double L = q.d("box_length"), W = q.d("box_width"), H = q.d("box_height"), rho = q.d("rho_initial");
  double lo[3] = {-L / 2, -W / 2, -H / 2}, hi[3] = {-L / 4, 0, H / 2}, len[3] = {L / 4, W / 2, H}, z[3] = {0, 0, 0};
  common(c, "fluid", D, q, f, lo, hi);
  holds(c, "the block", q.i("lattice_type"), D, len, L / (q.i("lattice_nx") - 1), f.N);
  double M = rho * len[0] * len[1] * (D == 3 ? len[2] : 1);
  c.check(near(dsum(f, "m"), M), "mass", fmt("%g, expected %g", dsum(f, "m"), M));
  for(int i = 0; i < f.N; ++i) vals(c, f, i, rho, 2.5 - rho * q.d("gravity_acceleration_constant") * f["y"][i], z, "fluid");
  c.outcome(f.N);
}
static void wtunnel(Ctx & c, int D, const Q & q, File & f) {
  double L = q.d("box_length"), W = q.d("box_width"), H = q.d("box_height"), rho = q.d("rho_initial");
  double lo[3] = {W / 2, -W / 2, -H / 2}, hi[3] = {W / 2 + L, W / 2, H / 2}, len[3] = {L, W, H}, v[3] = {-q.d("flow_velocity"), 0, 0};
  common(c, "wtunnel", D, q, f, lo, hi);
  double dx = L / (q.i("lattice_nx") - 1);
  holds(c, "the section", q.i("lattice_type"), D, len, dx, f.N);
  double M = rho * len[0] * len[1] * (D == 3 ? len[2] : 1);
  c.check(near(dsum(f, "m"), M), "mass", fmt("%g, expected %g", dsum(f, "m"), M));
  for(int i = 0; i < f.N; ++i) { vals(c, f, i, rho, q.d("pressure_initial"), v, "flow"); c.check(f["h"][i] == f["h"][0] && f["h"][i] > dx, "smoothing length", fmt("%g", f["h"][i])); }
  c.outcome(f.N);
}
static void RT(Ctx & c, int D, const Q & q, File & f) {
  double W = q.d("box_width"), len[3] = {q.d("box_length"), W, q.d("box_height")}, rho1 = q.d("rho_initial"), rho2 = rho1 * q.d("density_ratio"), g = q.d("gravity_acceleration_constant");
  int lt = q.i("lattice_type");
  double dx = len[0] / (q.i("lattice_nx") - 1), dx2 = dx * pow(rho1 / rho2, 1. / D);
  Reg all; for(int i = 0; i < f.N; ++i) all.add(f, i);
  bool adj[3] = {q.b("periodic_boundary_x"), false, D == 3 && q.b("periodic_boundary_z")};
  double was[3] = {len[0], len[1], len[2]};
  for(int a = 0; a < D; ++a) if(adj[a]) len[a] = -2 * all.lo[a];
  double lo[3], hi[3];
  for(int a = 0; a < 3; ++a) hi[a] = len[a] / 2, lo[a] = -hi[a];
  common(c, "RT", D, q, f, lo, hi);
  Reg r[2];
  double A = q.d("rt_perturbation_amplitude"), st = q.d("rt_perturbation_stripe_width"), mo = q.d("rt_perturbation_mode");
  for(int i = 0; i < f.N; ++i) {
    double x = f["x"][i], y = f["y"][i], z = f["z"][i];
    bool top = y >= -TOL * W;
    double P = 2.5 + g * (rho2 * W / 2 - (top ? rho2 : rho1) * y), v[3] = {0, 0, 0};
    if(fabs(fabs(y) - st / 2) > 1e-9) {
      if(fabs(y) < st / 2) v[1] = -A * (1 + cos(2 * M_PI * x / len[0] * mo)) * (D == 3 ? 1 + cos(2 * M_PI * z / len[0] * mo) : 1) * cos(M_PI * y / st);
    }
    else v[1] = f["vy"][i];
    if(D == 3 && len[2] != len[0]) v[1] = f["vy"][i]; // the phase in z
    vals(c, f, i, top ? rho2 : rho1, P, v, top ? "top" : "bottom");
    c.check(near(f["m"][i], rho1 * cell(lt, D, dx)), "mass", fmt("%g, expected density times cell %g", f["m"][i], rho1 * cell(lt, D, dx)));
    r[top].add(f, i);
  }
  for(int k = 0; k < 2; ++k) {
    double d = k ? dx2 : dx, ln[3] = {len[0], W / 2, len[2]};
    if(!k) { double Y = row(lt, 1, dx) * (lt ? 2 : 1); ln[1] = floor(W / 2 / Y + 1e-9) * Y; if(fabs(W / 2 / Y - round(W / 2 / Y)) < 1e-6) continue; } // the bottom starts with a whole number of rows
    if(!adj[0] && !adj[2]) holds(c, k ? "top" : "bottom", lt, D, ln, d, r[k].n);
    for(int a = 0; a < D; a += 2) if(adj[a] && r[k].n && int(was[a] / per_row(lt, a, dx)) > 1) seam(c, k ? "top" : "bottom", r[k], a, len[a], a == 0 && lt ? .5 * d : row(lt, a, d), q.d("lattice_mismatch_tolerance") * per_row(lt, a, dx2), a == 0 && lt ? .5 * d : 0);
  }
  for(int a = 0; a < D; a += 2) if(adj[a]) { double d1 = per_row(lt, a, dx), d2 = per_row(lt, a, dx2), mx = std::max(was[a], fit(was[a], d1, d2, q.d("lattice_mismatch_tolerance"))); c.check(len[a] > was[a] - 2 * d1 - d2 && len[a] < mx * (1 + 1e-6), "adjusted box", fmt("axis %d: %g from %g, expected up to %g", a, len[a], was[a], mx)); }
  c.outcome(mix(r[0].n, r[1].n));
}
// volume of the cell of one particle of the lattice these particles are on: pitch along x of a row, times the distance of rows, times that of layers
static double pitch(vector<double> v) {
  std::sort(v.begin(), v.end());
  for(size_t i = 1; i < v.size(); ++i) if(v[i] - v[0] > 1e-6 * (1 + fabs(v[0]))) return v[i] - v[0];
  return 0;
}
static double measured_cell(File & f, const vector<int> & of, int D) {
  vector<int> s = of;
  double V = 1;
  for(int a = D - 1; a >= 0; --a) {
    auto & X = f[a == 2 ? "z" : a == 1 ? "y" : "x"];
    vector<double> v;
    for(int i : s) v.push_back(X[i]);
    V *= pitch(v);
    double lo = *std::min_element(v.begin(), v.end());
    vector<int> t;
    for(int i : s) if(X[i] - lo <= 1e-6 * (1 + fabs(lo))) t.push_back(i);
    s = t;
  }
  return V;
}
static void KH(Ctx & c, int D, const Q & q, File & f) {
  double L = q.d("box_length"), W = q.d("box_width"), H = q.d("box_height"), rt = q.d("rho_initial"), rm = rt * q.d("density_ratio"), V0 = q.d("flow_velocity");
  double lo[3] = {-L / 2, -W / 2, -H / 2}, hi[3] = {L / 2, W / 2, H / 2};
  int lt = q.i("lattice_type");
  double dx = L / q.i("lattice_nx"), dx2 = dx * pow(rm / rt, 1. / D), Y = row(lt, 1, dx2) * (lt ? 2 : 1);
  common(c, "KH", D, q, f, lo, hi);
  Reg r[3];
  vector<int> ms;
  double A = q.d("KH_A"), la = q.d("KH_lambda");
  for(int i = 0; i < f.N; ++i) {
    double x = f["x"][i], y = f["y"][i];
    bool mid = near(f["rho"][i], rm);
    double v[3] = {(mid ? .5 : -.5) * V0, 0, 0};
    if(y < .25 && y > .25 - .025) v[1] = -A * sin(2 * M_PI * (x + .5) / la);
    if(y > -.25 && y < -.25 + .025) v[1] = A * sin(2 * M_PI * (x + .5) / la);
    vals(c, f, i, mid ? rm : rt, q.d("pressure_initial"), v, mid ? "middle" : "outer");
    r[mid ? 1 : y < 0 ? 0 : 2].add(f, i);
    c.check(near(f["m"][i], f["m"][0]), "mass", fmt("%g and %g", f["m"][i], f["m"][0]));
    if(mid) ms.push_back(i);
  }
  if(!c.check(r[0].n && r[1].n && r[2].n, "layers", fmt("%ld %ld %ld", r[0].n, r[1].n, r[2].n))) return;
  c.check(r[0].hi[1] < r[1].lo[1] && r[1].hi[1] < r[2].lo[1], "layers", fmt("bottom up to %g, middle %g to %g, top from %g", r[0].hi[1], r[1].lo[1], r[1].hi[1], r[2].lo[1]));
  c.check(fabs(r[1].lo[1] + r[1].hi[1]) < Y && fabs(r[1].hi[1] - W / 6) < 1.5 * Y && fabs(r[1].lo[1] + W / 6) < 1.5 * Y, "middle layer", fmt("%g to %g, expected the middle third of %g", r[1].lo[1], r[1].hi[1], W));
  c.check(fabs(r[0].lo[1] + W / 2) < 1e-6 * W, "bottom layer", fmt("starts at %g, box at %g", r[0].lo[1], -W / 2));
  double mc = measured_cell(f, ms, D);
  if(mc > 0) c.check(near(f["m"][0], rm * mc, 1e-4), "particle mass", fmt("%g, density times the cell of the middle layer %g", f["m"][0], rm * mc));
  // masses: density times volume, up to the layer between the regions and rounding to whole rows
  double M = L * (D == 3 ? H : 1) * (rm * (r[1].hi[1] - r[1].lo[1]) + rt * (r[0].hi[1] - r[0].lo[1] + r[2].hi[1] - r[2].lo[1])), S = L * (D == 3 ? H : 1) * rm * 3 * Y;
  c.check(fabs(dsum(f, "m") - M) < S + M * (D == 3 ? .35 : .15), "total mass", fmt("%g, expected about %g", dsum(f, "m"), M));
  c.outcome(mix(mix(r[0].n, r[1].n), r[2].n));
}
struct Dom { const char * n; Par p; };
static void enumerate(Ctx & c) {
  th::scratch();
  bool T = c.thorough;
  long cs = 0;
  auto run = [&](const string & g, int D, Par p, int mode) { // mode 1: over an older file; 2: the data modified afterwards; 3: from a file of another resolution
    Q q{p};
    if(!q.p.count("initial_data_prefix")) q.p["initial_data_prefix"] = "\"ic\"";
    if(!c.want([&] { return g + fmt(" %dD mode %d: ", D, mode) + q.line(); })) return;
    string file = q.s("initial_data_prefix") + ".h5part", err;
    mkdir("sub", 0755);
    unlink("store.bin"); unlink(file.c_str()); for(int k = 0; k < 4; ++k) unlink(fmt("%s_%05d.h5part", q.s("initial_data_prefix").c_str(), k).c_str());
    h5::reset(); h5::freeze("store.bin");
    if(mode == 1) { Q o = q; o.p["lattice_nx"] = "13"; if(!c.check(gen(c, g, D, o, err) == DONE, "failed", err)) return; }
    End e = gen(c, g, D, q, err);
    if(!c.check(e == DONE, e == CRASHED ? "crashed" : "refused", err)) return;
    File f, b;
    if(!fetch(c, file, f)) return;
    auto judge = [&](const Q & q, File & f, File * before) {
      if(g == "sodtube") sodtube(c, D, q, f);
      if(g == "sedov" || g == "noh") sedov_noh(c, g, D, q, f, before);
      if(g == "implosion" || g == "collapse") uniform(c, g, D, q, f);
      if(g == "fluid") fluid(c, D, q, f);
      if(g == "wtunnel") wtunnel(c, D, q, f);
      if(g == "RT") RT(c, D, q, f);
      if(g == "KH") KH(c, D, q, f);
    };
    judge(q, f, nullptr);
    if(mode < 2) return;
    b = f; f = File();
    Q m = q;
    m.p["modify_initial_data"] = "yes";
    if(mode == 3) { m.p["lattice_nx"] = "9"; m.p["sedov_blast_energy"] = "3.5"; m.p["noh_infall_velocity"] = ".4"; }
    if(mode == 4) m.p["lattice_perturbation_amplitude"] = ".01";
    e = gen(c, g, D, m, err);
    if(!c.check(e == DONE, e == CRASHED ? "modify crashed" : "modify refused", err)) return;
    if(fetch(c, file, f)) judge(m, f, &b);
  };
  auto with = [](Par a, const Par & b) { for(auto & k : b) a[k.first] = k.second; return a; };
  const vector<Par> phys = {{}, {{"poly_gamma", "1.6666666666666667"}, {"rho_initial", "3"}, {"pressure_initial", "1e-7"}, {"sph_eta", "1.2"}, {"sph_kernel", "\"cubic spline\""}}, {{"rho_initial", ".25"}, {"pressure_initial", "40"}, {"sph_kernel", "\"quintic spline\""}, {"out_h5data_separate_iterations", "yes"}}};
  const vector<Par> boxes = {{{"box_length", "1"}}, {{"box_length", "2"}, {"box_width", ".5"}, {"box_height", ".75"}}, {{"box_length", ".5"}, {"box_width", "1.5"}, {"box_height", "1.25"}}, {}};
  const vector<Par> pre = {{}, {{"initial_data_prefix", "\"sub/ic_nx20\""}}};
  for(int D = 1; D <= 3; ++D) {
    const vector<string> LT = D == 1 ? vector<string>{"0", "1"} : vector<string>{"0", "1", "2"};
    vector<string> NX = D == 3 ? vector<string>{"7", "10", "12"} : D == 2 ? vector<string>{"7", "10", "15", "20"} : vector<string>{"7", "20", "31", "100"};
    if(T) for(int k = 5; k < (D == 3 ? 17 : 30); ++k) NX.push_back(std::to_string(k));
    for(auto & lt : LT) for(auto & nx : NX) {
      Par a = {{"lattice_type", lt}, {"lattice_nx", nx}};
      for(size_t b = 0; b < boxes.size(); ++b) {
        if(D == 3 && b == 3) continue;
        Par ab = with(a, boxes[b]);
        for(size_t f = 0; f < phys.size(); ++f) {
          Par abf = with(ab, phys[f]);
          int z = cs++;
          // sod tube
          for(int t = 1; t <= 6; ++t) for(const char * em : {"yes", "no"}) for(int per = 0; per < 1 << D; ++per) {
            if(!T && (z + t + per + (*em == 'y')) % (D == 3 ? 12 : 6)) continue;
            if(per > 1 && D == 3 && !T && per != 7) continue;
            if(em[0] == 'n' && per) continue;
            if(t > 2 && t != 5 && per && !T) continue;
            run("sodtube", D, with(abf, {{"sodtest_num", std::to_string(t)}, {"equal_mass", em}, {"periodic_boundary_x", per & 1 ? "yes" : "no"}, {"periodic_boundary_y", per & 2 ? "yes" : "no"}, {"periodic_boundary_z", per & 4 ? "yes" : "no"}}), (z + t) % 5 == 0);
          }
          for(int m = 0; m < 5; ++m) {
            if(!T && (z + m) % 3) continue;
            Par s = with(abf, pre[z & 1]);
            run("sedov", D, with(s, {{"sedov_blast_radius", m & 1 ? ".3" : ".06"}, {"sedov_blast_energy", m == 2 ? "2e-7" : "1"}}), m);
            run("noh", D, with(s, {{"noh_infall_velocity", m & 1 ? "1" : ".1"}}), m);
          }
          if(D > 1) {
            run("implosion", D, with(abf, pre[z & 1]), z % 4 == 1);
            run("fluid", D, with(abf, {{"gravity_acceleration_constant", z & 1 ? "1" : "9.81"}}), z % 4 == 2);
            run("wtunnel", D, with(abf, {{"flow_velocity", z & 1 ? ".2" : "3"}}), z % 4 == 3);
            for(auto dr : {"2", "4", "1.5", "3"}) for(int per = 0; per < 4; ++per) {
              if(!T && (z + per + *dr) % 4) continue;
              if(atoi(nx.c_str()) < 10 && per) continue;
              run("RT", D, with(abf, {{"density_ratio", dr}, {"gravity_acceleration_constant", "1"}, {"periodic_boundary_x", per & 1 ? "yes" : "no"}, {"periodic_boundary_z", per & 2 ? "yes" : "no"}, {"rt_perturbation_mode", per & 1 ? "2" : "1"}, {"rt_perturbation_stripe_width", per & 1 ? ".3" : ".1"}}), (z + per) % 7 == 0);
              Q kq{abf}; double kdx = kq.d("box_length") / kq.i("lattice_nx"), kr = pow(atof(dr), 1. / D);
              if(per < 2 && kq.d("box_width") / 3 > 4 * kdx * kr && (D == 2 || kq.d("box_height") > 4 * kdx * kr)) run("KH", D, with(abf, {{"density_ratio", dr}, {"flow_velocity", per ? "1" : ".5"}}), (z + per) % 7 == 0);
            }
          }
          if(D == 3) run("collapse", D, with(abf, pre[z & 1]), z % 4 == 0);
        }
      }
      // discs and spheres
      for(auto R : {"1", ".5", "3"}) for(size_t f = 0; f < phys.size(); ++f) {
        const char * pr = "constant";
        int z = cs++;
        Par s = with(with(a, {{"domain_type", "1"}, {"sphere_radius", R}, {"density_profile", string("\"") + pr + "\""}}), with(phys[f], pre[z & 1]));
        for(int m = 0; m < 5; ++m) {
          if(!T && D == 3 && (z + m) % 2) continue;
          run("sedov", D, with(s, {{"sedov_blast_radius", m & 1 ? ".3" : ".06"}}), m);
          if(*pr == 'c') run("noh", D, s, m);
        }
        if(*pr == 'c' && D > 1) run("implosion", D, s, z % 2);
        if(*pr == 'c' && D == 3) run("collapse", D, s, z % 2);
      }
    }
    // perturbed and spherical lattices
    for(const char * amp : {".01", ".15", ".5"}) for(int dt = 0; dt < 2; ++dt) for(const char * lt : {"0", "1", "3", "4"}) {
      if(*lt > '2' && (D != 3 || !dt)) continue;
      Par s = {{"lattice_nx", "15"}, {"lattice_type", lt}, {"domain_type", std::to_string(dt)}, {"box_length", "1"}, {"lattice_perturbation_amplitude", amp}};
      for(int m = 0; m < 2; ++m) { run("sedov", D, with(s, {{"sedov_blast_radius", ".3"}}), m); run("noh", D, s, m); }
      s.erase("lattice_perturbation_amplitude");
      for(int m = 0; m < (*lt == '3' ? 3 : 2); ++m) { run("sedov", D, with(s, {{"sedov_blast_radius", m == 1 ? ".3" : ".06"}, {"density_profile", m == 2 ? "\"parabolic\"" : "\"constant\""}}), m); run("noh", D, s, m); }
    }
  }
}
int main(int argc, char ** argv) { return mc::main_run(argc, argv, enumerate); }
