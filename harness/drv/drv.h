// Runs of a real driver under the simulated MPI and what they wrote.
#pragma once
#include "../tree/common.h"
#include <cmath>
using std::string; using std::vector;
typedef void (*drv_entry_t)(int, const char *);
typedef std::vector<std::pair<string, string>> Par;
struct Snap { long it = -1; double t = -1, dt = -1; std::map<string, vector<double>> col; vector<long> id; size_t n = 0; };
struct Out { bool ok = true; string err; vector<Snap> snap; vector<vector<double>> scalar, diag; string screen; uint64_t steps = 0; vector<uint32_t> nopt; };
static vector<vector<double>> rows(const char * f) {
  vector<vector<double>> r;
  std::ifstream s(f);
  for(string l; std::getline(s, l);) { if(l.size() && l[0] == '#') continue; std::istringstream w(l); vector<double> v; for(string x; w >> x;) v.push_back(strtod(x.c_str(), 0)); r.push_back(v); }
  return r;
}
static Snap snap_of(std::shared_ptr<h5::Obj> st) {
  Snap s;
  auto num = [&](const char * n) { if(!st->attr.count(n)) return -1.; auto & o = st->attr[n]; return o->data.size() == 4 ? (double)*(int *)o->data.data() : 0.; };
  if(st->attr.count("iteration")) { auto & o = st->attr["iteration"]; s.it = o->data.size() == 4 ? *(int *)o->data.data() : *(long *)o->data.data(); }
  if(st->attr.count("time")) s.t = *(double *)st->attr["time"]->data.data();
  if(st->attr.count("timestep")) s.dt = *(double *)st->attr["timestep"]->data.data();
  for(auto & c : st->child) {
    size_t n = 1;
    for(auto d : c.second->dims) n *= d;
    size_t w = n ? c.second->data.size() / n : 0;
    if(c.first == "id") { s.id = h5::as_l(c.second); s.n = s.id.size(); }
    else if(c.first == "type" || c.first == "state") { vector<double> v(n); for(size_t i = 0; i < n; ++i) v[i] = w == 4 ? ((int *)c.second->data.data())[i] : ((long *)c.second->data.data())[i]; s.col[c.first] = v; }
    else if(c.first == "neighbors") { auto l = h5::as_l(c.second); s.col[c.first] = vector<double>(l.begin(), l.end()); }
    else if(c.first == "rank" || c.first == "key") {}
    else s.col[c.first] = h5::as_d(c.second);
  }
  return s;
}
static vector<Snap> snaps(const string & file) {
  vector<Snap> r;
  auto root = h5::load(file);
  if(!root) return r;
  std::map<long, std::shared_ptr<h5::Obj>> m;
  for(auto & ch : root->child) { long k; if(sscanf(ch.first.c_str(), "Step#%ld", &k) == 1) m[k] = ch.second; }
  for(auto & x : m) r.push_back(snap_of(x.second));
  return r;
}
static void write_par(const char * f, const Par & p) { std::ofstream o(f); for(auto & q : p) o << q.first << " = " << q.second << "\n"; }
// one run in this process (call inside c.isolated: the libraries keep state)
static Out drive(mc::Ctx & c, const string & tag, int np, const Par & par, const sim::Sched & sc) {
  Out R;
  write_par("run.par", par);
  unlink("scalar_reductions.dat"); unlink("diagnostic.dat");
  static std::stringbuf sb;
  sb.str("");
  auto old = std::clog.rdbuf(&sb);
  auto & L = th::RankLibs<drv_entry_t>::get(tag, "drv_entry");
  std::function<void(uint64_t)> sink = [&](uint64_t h) { c.state(h); };
  sim::Result r = sim::run(np, sc, [&](int i) { L.fn[i](i, "run.par"); }, sink);
  std::clog.rdbuf(old);
  c.exec(); c.steps(r.steps);
  R.ok = r.ok; R.err = r.key + ": " + r.msg; R.steps = r.steps; R.nopt.assign(r.nopt.begin(), r.nopt.end());
  R.screen = sb.str();
  R.snap = snaps("out.h5part");
  R.scalar = rows("scalar_reductions.dat");
  R.diag = rows("diagnostic.dat");
  return R;
}
static sim::Sched sched(int np, int k = 0) {
  sim::Sched s;
  for(int i = 0; i < np; ++i) s.prio.push_back(k & 1 ? np - 1 - i : (i + k / 4) % np);
  s.rendezvous = k & 2;
  return s;
}
