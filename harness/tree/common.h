// Explorer-side helpers for harnesses that run the rank library under simmpi.
#pragma once
#include "h5fake.h"
#include "schedx.h"
#include "sim.h"
#include "tcase.h"
#include <array>
#include <dlfcn.h>
#include <fstream>
#include <set>
#include <sstream>
#include <sys/stat.h>

namespace th {
// every rank is a private copy of the library: its own globals, as a process has
template<class F> struct RankLibs {
  struct Fns {
    std::string tag, sym;
    std::vector<F> v;
    F operator[](int i) {
      while((int)v.size() <= i) {
        const char * dir = getenv("RANKDIR");
        std::ifstream f(std::string(dir ? dir : "/tmp/b") + "/librank_" + tag + ".so", std::ios::binary);
        std::stringstream ss;
        ss << f.rdbuf();
        const char * sc = getenv("MC_SCRATCH");
        std::string cp = std::string(sc ? sc : "/tmp") + "/rl." + std::to_string(getpid()) + "." + tag + "." + std::to_string(v.size()) + ".so";
        std::ofstream o(cp, std::ios::binary);
        o << ss.str();
        o.close();
        void * h = dlopen(cp.c_str(), RTLD_LOCAL | RTLD_LAZY);
        if(!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); _exit(3); }
        unlink(cp.c_str());
        v.push_back((F)dlsym(h, sym.c_str()));
        if(!v.back()) { fprintf(stderr, "dlsym %s\n", sym.c_str()); _exit(3); }
      }
      return v[i];
    }
  };
  Fns fn;
  static RankLibs & get(const std::string & tag, const char * sym = "rank_entry") {
    static std::map<std::string, RankLibs> m;
    auto & r = m[tag + ":" + sym];
    r.fn.tag = tag;
    r.fn.sym = sym;
    return r;
  }
};
inline void scratch() {
  static std::string d;
  if(d.size()) return;
  const char * o = getenv("MC_SCRATCH");
  d = std::string(o ? o : "/tmp") + "/w" + std::to_string(getpid());
  mkdir(d.c_str(), 0755);
  if(chdir(d.c_str())) _exit(3);
}
inline void save_particles(const std::string & file, int D, const std::vector<TP> & p) {
  auto root = std::make_shared<h5::Obj>();
  auto st = std::make_shared<h5::Obj>();
  root->child["Step#0"] = st;
  auto col = [&](const char * n, auto f) {
    std::vector<double> v;
    for(auto & q : p) v.push_back(f(q));
    st->child[n] = h5::dset_d(v);
  };
  const char *xn[] = {"x", "y", "z"}, *vn[] = {"vx", "vy", "vz"};
  for(int d = 0; d < D; ++d) {
    col(xn[d], [d](const TP & q) { return q.x[d]; });
    col(vn[d], [d](const TP & q) { return q.v[d]; });
  }
  col("m", [](const TP & q) { return q.m; });
  col("rho", [](const TP & q) { return q.rho; });
  col("h", [](const TP & q) { return q.h; });
  col("P", [](const TP & q) { return q.rho; });
  col("u", [](const TP & q) { return q.u; });
  col("dt", [](const TP &) { return 0.; });
  std::vector<long> id;
  std::vector<int> ty(p.size(), 0), stt(p.size(), 0);
  for(auto & q : p) id.push_back(q.id);
  st->child["id"] = h5::dset_l(id);
  st->child["type"] = h5::dset_i(ty);
  st->child["state"] = h5::dset_i(stt);
  h5::save(file, root);
}
struct Cfg { int D; std::string name; std::vector<TP> p; };
inline std::string pstr(const Cfg & c) {
  std::string s = c.name + " D=" + std::to_string(c.D) + " N=" + std::to_string(c.p.size());
  if(c.p.size() <= 8) for(auto & q : c.p) {
    s += mc::fmt(" #%ld(", q.id);
    for(int d = 0; d < c.D; ++d) s += mc::fmt("%s%g", d ? "," : "", q.x[d]);
    s += mc::fmt(";h=%g)", q.h);
  }
  return s;
}
inline void finish(Cfg & c) {
  for(size_t i = 0; i < c.p.size(); ++i) {
    auto & q = c.p[i];
    q.id = (long)i + 1;
    q.m = 1. + 0.25 * (double)((i * 5) % 7);
    q.rho = 10. + (double)i;
    q.u = 100. + (double)i;
    for(int d = 0; d < c.D; ++d) q.v[d] = 0.5 * (double)i + d;
  }
}
// all K-subsets of a small grid, with a family of smoothing-length patterns
template<class F> void subsets(int D, int K, F && f) {
  std::vector<std::array<double, 3>> g;
  if(D == 1) for(int i = 0; i < 8; ++i) g.push_back({(double)i, 0, 0});
  if(D == 2) for(int i = 0; i < 9; ++i) g.push_back({(double)(i % 3), (double)(i / 3), 0});
  if(D == 3) {
    for(int i = 0; i < 8; ++i) g.push_back({(double)(i & 1) * 2, (double)((i >> 1) & 1) * 2, (double)((i >> 2) & 1) * 2});
    g.push_back({1, 1, 1});
  }
  int n = (int)g.size();
  for(int m = 0; m < (1 << n); ++m) {
    if(__builtin_popcount(m) != K) continue;
    std::vector<std::array<double, 3>> s;
    for(int i = 0; i < n; ++i) if(m >> i & 1) s.push_back(g[i]);
    f(s, m);
  }
}
inline double hpat(int pat, int i) {
  switch(pat) {
    case 0: return 1.;
    case 1: return 2.;
    case 2: return 0.5;
    case 3: return i % 2 ? 2. : 0.5;
    case 4: return i % 3 == 0 ? 4. : 0.75;
    default: return i == 0 ? 0.125 : 1.5;
  }
}
inline Cfg make(int D, const std::vector<std::array<double, 3>> & pos, int hp, int order, const std::string & nm) {
  Cfg c;
  c.D = D;
  c.name = mc::fmt("%s hp%d ord%d", nm.c_str(), hp, order);
  int n = (int)pos.size();
  for(int k = 0; k < n; ++k) {
    int i = k;
    if(order == 1) i = n - 1 - k;
    if(order == 2) i = (k % 2 == 0) ? k / 2 : n - 1 - k / 2;
    if(order == 3) i = (int)((k * 7L + 3) % n);
    TP q;
    for(int d = 0; d < D; ++d) q.x[d] = pos[i][d];
    q.h = hpat(hp, i);
    c.p.push_back(q);
  }
  if(order == 3 && n % 7 == 0) { c.p.clear(); for(int i : {0}) (void)i; return make(D, pos, hp, 1, nm); }
  finish(c);
  return c;
}
// larger structured families: uniform lattice, two-scale cluster, line, shell
inline std::vector<std::array<double, 3>> family(int D, int kind, int k) {
  std::vector<std::array<double, 3>> r;
  auto grid = [&](int m, double s, double o) {
    int tot = 1;
    for(int d = 0; d < D; ++d) tot *= m;
    for(int i = 0; i < tot; ++i) {
      std::array<double, 3> x{0, 0, 0};
      int t = i;
      for(int d = 0; d < D; ++d) { x[d] = o + s * (t % m); t /= m; }
      r.push_back(x);
    }
  };
  if(kind == 0) grid(k, 1., 0.);
  else if(kind == 1) { grid(k, 1., 0.); grid(k, 1. / 16, 0.53125); }
  else if(kind == 2) for(int i = 0; i < k * k; ++i) { std::array<double, 3> x{0, 0, 0}; for(int d = 0; d < D; ++d) x[d] = i / 4. * (d + 1); r.push_back(x); }
  else for(int i = 0; i < k * k; ++i) {
    // points on a closed curve, dyadic coordinates
    std::array<double, 3> x{0, 0, 0};
    double t = 6.283185307179586 * i / (k * k);
    for(int d = 0; d < D; ++d) x[d] = std::round(256 * 4 * (d == 0 ? cos(t) + (D == 1 ? 0.5 * t : 0) : d == 1 ? sin(t) : cos(3 * t))) / 256;
    r.push_back(x);
  }
  return r;
}
// particles which close in on the middle of the domain, so that the tree becomes very deep there and the keys of its cells agree in
// more and more of their last digits; side < 0: from every corner, else from that one only
inline std::vector<std::array<double, 3>> deep(int D, int side, int levels) {
  std::vector<std::array<double, 3>> r;
  auto put = [&](int s, double e) {
    std::array<double, 3> x{0, 0, 0};
    for(int d = 0; d < D; ++d) x[d] = (s >> d & 1) ? e : -e;
    r.push_back(x);
  };
  for(int s = 0; s < 1 << D; ++s) put(s, 2.);
  for(int s = 0; s < 1 << D; ++s) if(side < 0 || s == side) for(int k = 1; k <= levels; ++k) put(s, std::ldexp(1., -k));
  return r;
}
// n particles spread evenly but without a pattern over a box whose volume is about theirs; dyadic coordinates
inline std::vector<std::array<double, 3>> crowd(int D, int n) {
  std::vector<std::array<double, 3>> r;
  const double g[3] = {D == 1 ? .6180339887498949 : D == 2 ? .7548776662466927 : .8191725133961645, D == 2 ? .5698402909980532 : .6710436067037893, .5497004779019703};
  const double L = pow(n, 1. / D) * .9;
  for(int i = 0; i < n; ++i) {
    std::array<double, 3> x{0, 0, 0};
    for(int d = 0; d < D; ++d) x[d] = std::floor(std::fmod((i + .5) * g[d], 1.) * L * 65536) / 65536;
    r.push_back(x);
  }
  return r;
}
} // namespace th
