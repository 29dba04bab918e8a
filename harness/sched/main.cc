// Time step and output schedule of the drivers' loop.
#include "../tree/common.h"
#include "scase.h"
#include <cmath>
using namespace mc;
using std::string; using std::vector;
struct Rec { long it; double t; };
struct Run { SRes r; vector<Rec> out[3]; string err; };
static const double LIM[4] = {.03, .1, .17, 1.};
static const char * ON[3] = {"screen", "scalar", "h5data"};
// an output: 0 off, >0 interval in time, <0 every -n iterations
static const double OUTS[7] = {0, .1, .25, .3, 1., -2, -5};
struct Case { double out[3]; vector<double> lim; double dt0, t0, tf; long itf, it0; bool adapt, restart; int n; };
static string str(const Case & k) {
  string s;
  for(int i = 0; i < 3; ++i) if(k.out[i] != 0) s += k.out[i] > 0 ? fmt("%s each %g; ", ON[i], k.out[i]) : fmt("%s every %g; ", ON[i], -k.out[i]);
  s += "limits";
  for(double l : k.lim) s += fmt(" %g", l);
  return s + fmt("; initial step %g time %g iteration %ld final time %g iteration %ld%s%s; %d processes", k.dt0, k.t0, k.it0, k.tf, k.itf, k.adapt ? "" : " fixed step", k.restart ? " restart" : "", k.n);
}
static vector<TP> parts() { vector<TP> p(5); for(int i = 0; i < 5; ++i) { p[i] = TP(); p[i].id = i; p[i].x[0] = i; p[i].h = 1; p[i].m = 1; p[i].rho = 1; p[i].u = 1; p[i].v[0] = 0; } return p; }
static std::shared_ptr<h5::Obj> scal(std::shared_ptr<h5::Obj> o) { o->scalar = true; return o; }
static Run go(Ctx & c, const Case & k, bool outputs) {
  Run R;
  static std::stringbuf sb;
  sb.str("");
  auto old = std::clog.rdbuf(&sb);
  unlink("scalar_reductions.dat"); unlink("in.h5part"); unlink("out.h5part");
  h5::reset();
  th::save_particles("in.h5part", 1, parts());
  if(k.restart) {
    auto root = h5::load("in.h5part");
    auto st = root->child["Step#0"];
    st->attr["time"] = scal(h5::dset_d({k.t0})); st->attr["timestep"] = scal(h5::dset_d({k.dt0})); st->attr["iteration"] = scal(h5::dset_l({k.it0}));
    h5::save("in.h5part", root);
  }
  SCase s;
  auto set = [&](const char * n, const string & v) { s.par.push_back({n, v}); };
  auto num = [&](const char * n, double v) { set(n, fmt("%.17g", v)); };
  num("initial_dt", k.restart ? 7. : k.dt0); num("initial_time", k.restart ? 0. : k.t0); num("initial_iteration", k.it0);
  set("adaptive_timestep", k.adapt ? "yes" : "no");
  for(int i = 0; i < 3; ++i) {
    double o = outputs ? k.out[i] : 0;
    num(fmt("out_%s_dt", ON[i]).c_str(), o > 0 ? o : 0); num(fmt("out_%s_every", ON[i]).c_str(), o < 0 ? -o : 0);
  }
  num("final_time", outputs ? k.tf : 0); num("final_iteration", outputs ? k.itf : k.it0 + 300);
  set("output_h5data_prefix", "\"out\""); set("out_h5data_separate_iterations", "no");
  s.limit = k.lim; s.n = k.n; s.start = k.restart ? k.it0 : 0; s.guard = 330;
  vector<SRes> res(k.n);
  auto & L = th::RankLibs<sched_entry_t>::get("s1", "sched_entry");
  sim::Sched sc;
  for(int i = 0; i < k.n; ++i) sc.prio.push_back(i);
  std::function<void(uint64_t)> sink = [&](uint64_t) {};
  sim::Result r = sim::run(k.n, sc, [&](int i) { L.fn[i](i, &s, &res[i]); }, sink);
  c.steps(r.steps);
  std::clog.rdbuf(old);
  if(!r.ok) { R.err = r.key + " " + r.msg; return R; }
  R.r = res[0];
  for(int i = 1; i < k.n; ++i) {
    bool same = res[i].s.size() == res[0].s.size();
    for(size_t j = 0; same && j < res[0].s.size(); ++j) same = res[i].s[j].t2 == res[0].s[j].t2 && res[i].s[j].it == res[0].s[j].it;
    if(!same) R.err = fmt("process %d took other steps than process 0", i);
  }
  std::istringstream f(sb.str());
  for(string l; std::getline(f, l);) {
    std::istringstream w(l);
    vector<string> t;
    for(string x; w >> x;) t.push_back(x);
    if(t.size() < 2) continue;
    char * e1, * e2;
    long it = strtol(t[t.size() - 2].c_str(), &e1, 10);
    double tm = strtod(t.back().c_str(), &e2);
    if(*e1 || *e2) continue;
    R.out[0].push_back({it, tm});
  }
  std::ifstream sf("scalar_reductions.dat");
  for(string l; std::getline(sf, l);) { if(l[0] == '#') continue; std::istringstream w(l); Rec q; if(w >> q.it >> q.t) R.out[1].push_back(q); }
  if(auto root = h5::load("out.h5part")) {
    std::map<long, Rec> m;
    for(auto & ch : root->child) {
      long st;
      if(sscanf(ch.first.c_str(), "Step#%ld", &st) != 1) continue;
      Rec q{-1, -1};
      if(ch.second->attr.count("iteration")) { auto & o = ch.second->attr["iteration"]; q.it = o->data.size() == 4 ? *(int *)o->data.data() : *(long *)o->data.data(); }
      if(ch.second->attr.count("time")) q.t = *(double *)ch.second->attr["time"]->data.data();
      m[st] = q;
    }
    for(auto & x : m) R.out[2].push_back(x.second);
  }
  return R;
}
static string list(const vector<Rec> & v) { string s; for(size_t i = 0; i < v.size() && i < 12; ++i) s += fmt(" %ld@%.10g", v[i].it, v[i].t); return s; }
static void one(Ctx & c, const Case & k) {
  th::scratch();
  Run R = go(c, k, true);
  c.exec();
  if(R.err.size()) { c.fail("run", R.err); return; }
  auto & s = R.r.s;
  if(!c.check(R.r.done && s.size(), "run does not end", fmt("%zu iterations, time %g", s.size(), s.size() ? s.back().t : 0.))) return;
  uint64_t h = s.size();
  const double e = 1e-9;
  // extent of the run
  c.check(s[0].it == k.it0 && std::abs(s[0].t - k.t0) <= e, "start", fmt("starts at iteration %ld time %.12g", s[0].it, s[0].t));
  for(size_t i = 0; i < s.size(); ++i) {
    c.check(s[i].it == k.it0 + (long)i && (!i || s[i].t == s[i - 1].t2), "iteration", fmt("iteration %ld at place %zu", s[i].it, i));
    c.check(s[i].t2 > s[i].t, "time does not advance", fmt("iteration %ld from %.17g to %.17g", s[i].it, s[i].t, s[i].t2));
    if(i) c.check((!k.itf || s[i].it <= k.itf) && (!k.tf || s[i].t <= k.tf + e), "runs past the end", fmt("iteration %ld time %.12g", s[i].it, s[i].t));
    h = hd(h, s[i].t);
  }
  {
    auto & l = s.back();
    bool over = (k.itf && l.it + 1 > k.itf) || (k.tf && l.t2 > k.tf * (1 + 1e-15));
    c.check(over, "stops early", fmt("after iteration %ld time %.12g; the next one, at %.17g, is still inside", l.it, l.t, l.t2));
  }
  // steps
  auto nearest = [&](double t) { double r = 1e300; for(int o = 0; o < 3; ++o) if(k.out[o] > 0) { double D = k.out[o], n = std::floor(t / D + 1e-9) + 1; r = std::min(r, n * D); } return r; };
  if(k.adapt) {
    static std::map<string, vector<double>> memo;
    string mk = fmt("%.17g %ld %d ", k.dt0, k.it0, k.n);
    for(double l : k.lim) mk += fmt("%.17g ", l);
    Case k2 = k;
    k2.tf = 0; k2.t0 = 0; k2.restart = false;
    Run F = go(c, k2, false);
    c.exec();
    if(F.err.size() || F.r.s.size() < s.size()) { c.fail("run", "without outputs: " + F.err); return; }
    for(size_t i = 0; i < s.size(); ++i) {
      double l = k.lim[i % k.lim.size()], u = F.r.s[i].t2 - F.r.s[i].t, d = s[i].t2 - s[i].t, near = nearest(s[i].t);
      string w = fmt("iteration %ld at %.12g: step %.12g (reported %.12g), stability limit %g, undisturbed step %.12g, next output time %.12g", s[i].it, s[i].t, d, s[i].dt, l, u, near);
      c.check(d <= l + e, "stability limit", w);
      c.check(std::abs(s[i].dt - d) <= e, "step reported", w);
      c.check(u <= l + e, "stability limit without outputs", w);
      double up = i ? F.r.s[i - 1].t2 - F.r.s[i - 1].t : k.dt0;
      c.check(u >= std::min(up, l) / (i ? 2 : 4) - e && (!(l > 2.000001 * up) || u > up), "step does not follow the limit", fmt("previous %.12g; ", up) + w);
      c.check(s[i].t2 <= near + e, "jumps over an output time", w);
      if(near > s[i].t + 2 * u + e) c.check(std::abs(d - u) <= e, "shortened step", w);
      else c.check(d >= std::min(u / 2, near - s[i].t) - e, "shortened step", w);
    }
  }
  else for(auto & q : s) c.check(std::abs(q.t2 - q.t - k.dt0) <= e, "fixed step", fmt("step %.12g at iteration %ld", q.t2 - q.t, q.it));
  // outputs
  for(int o = 0; o < 3; ++o) {
    auto & f = R.out[o];
    string w = string(ON[o]) + " output at" + list(f) + "; ";
    std::map<long, int> n;
    for(auto & q : f) {
      long i = q.it - k.it0;
      ++n[q.it];
      c.check(i >= 0 && i < (long)s.size() && std::abs(q.t - s[i].t) <= 1e-9, "output labels", w + fmt("iteration %ld time %.12g", q.it, q.t));
      h = mix(h, q.it * 3 + o);
    }
    for(auto & q : n) c.check(q.second == 1, "output twice", w + fmt("iteration %ld", q.first));
    if(k.out[o] == 0) { c.check(f.empty(), "output though off", w); continue; }
    double D = k.out[o];
    for(size_t i = 0; i < s.size(); ++i) {
      bool fired = n.count(s[i].it), want, maybe = false;
      if(D < 0) want = s[i].it % (long)-D == 0;
      else if(!i) want = true;
      else if(k.adapt) { double q = std::round(s[i].t / D); want = std::abs(s[i].t - q * D) <= e; }
      else {
        // a multiple of the interval in (previous time, this time]
        auto cnt = [&](double t, double x) { return std::floor(t / D + x); };
        want = cnt(s[i].t, -e) > cnt(s[i - 1].t, e);
        maybe = cnt(s[i].t, e) > cnt(s[i - 1].t, -e);
      }
      if(want || !maybe) c.check(fired == want, want ? "output missing" : "output not due", w + fmt("iteration %ld time %.12g", s[i].it, s[i].t));
    }
    if(D > 0) for(long q = (long)std::floor(k.t0 / D + e) + 1; q * D <= s.back().t - e * 2; ++q) {
      int m = 0;
      for(auto & x : f) if(k.adapt ? std::abs(x.t - q * D) <= e : (x.t >= q * D - e && x.t <= q * D + k.dt0 + e)) ++m;
      c.check(k.adapt ? m == 1 : m >= 1, "output time", w + fmt("multiple %ld of the interval: %d outputs", q, m));
    }
  }
  c.outcome(h);
}
static void enumerate(Ctx & c) {
  th::scratch();
  auto & L = th::RankLibs<sched_entry_t>::get("s1", "sched_entry");
  for(int i = 0; i < 3; ++i) L.fn[i];
  bool T = c.thorough;
  long i = 0;
  auto run = [&](const Case & k) { if(c.want([&] { return str(k); })) c.isolated([&] { one(c, k); }); };
  struct End { double tf; long itf; } ends[] = {{1., 0}, {.95, 0}, {0, 12}, {.6, 9}};
  for(int q = 0; q < 64; ++q) for(int a = 0; a < 7; ++a) for(int b = 0; b < 7; ++b) for(int d = 0; d < 7; ++d)
    for(double dt0 : {.02, .1, .5}) for(double t0 : {0., .35, .3}) for(int e = 0; e < 4; ++e) {
      Case k{{OUTS[a], OUTS[b], OUTS[d]}, {LIM[q % 4], LIM[q / 4 % 4], LIM[q / 16]}, dt0, t0, ends[e].tf, ends[e].itf, 0, true, false, 1};
      long z = i++;
      if(!T && z % 17) continue;
      if(z % 5 == 1) k.n = 2;
      if(z % 35 == 2) k.n = 3;
      if(z % 7 == 3) k.it0 = 3;
      if(z % 4 == 3) k.it0 = 3, k.restart = true;
      if(k.itf && k.it0 > 0) k.itf += k.it0;
      run(k);
    }
  for(int a = 0; a < 7; ++a) for(int b = 0; b < 7; ++b) for(int d = 0; d < 7; ++d)
    for(double dt0 : {.02, .1, .07, .3, .5}) for(double t0 : {0., .35, .3}) for(int e = 0; e < 4; ++e) {
      if(!T && i++ % 7) continue;
      run({{OUTS[a], OUTS[b], OUTS[d]}, {1.}, dt0, t0, ends[e].tf, ends[e].itf, 0, false, false, 1});
    }
}
int main(int argc, char ** argv) { return mc::main_run(argc, argv, enumerate); }
