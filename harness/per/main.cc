// Periodic systems: wrapped particles and images after every update, for every way to split them.
#include "../tree/common.h"
#include "pcase.h"
#include <cmath>
using namespace mc;
using std::string; using std::vector;
#ifndef DIM
#define DIM 2
#endif
static const int D = DIM;
static const double L[3] = {2, 3, 2.5};
static void one(Ctx & c, const PCase & k, const bool * per, double h, const sim::Sched & sc) {
  unlink("in.h5part"); h5::reset();
  size_t N = k.p.size();
  vector<TP> tp(std::max<size_t>(N, k.n));
  for(size_t i = 0; i < tp.size(); ++i) { tp[i] = TP(); tp[i].id = i; tp[i].x[0] = i; tp[i].m = 1; tp[i].h = 1; tp[i].rho = 1; tp[i].u = 1; }
  tp.resize(N);
  th::save_particles("in.h5part", D, tp);
  vector<PRes> res(k.n);
  auto & Lb = th::RankLibs<per_entry_t>::get("p" + std::to_string(D), "per_entry");
  std::function<void(uint64_t)> sink = [&](uint64_t s) { c.state(s); };
  sim::Result r = sim::run(k.n, sc, [&](int i) { Lb.fn[i](i, &k, &res[i]); }, sink);
  c.exec(); c.steps(r.steps);
  if(!r.ok) { c.fail(r.key, r.msg); return; }
  uint64_t hh = k.n;
  vector<std::array<double, 3>> at(N); // unwrapped positions
  for(size_t i = 0; i < N; ++i) for(int d = 0; d < 3; ++d) at[i][d] = k.p[i].x[d];
  for(size_t s = 0; s <= k.dt.size(); ++s) {
    if(s) for(size_t i = 0; i < N; ++i) for(int d = 0; d < D; ++d) at[i][d] += k.dt[s - 1] * k.p[i].v[d];
    vector<POut> in, im;
    std::set<long> ids;
    for(auto & q : res) {
      if(q.up.size() <= s) { c.fail("missing", fmt("update %zu", s)); return; }
      for(auto & o : q.up[s]) { (o.type ? im : in).push_back(o); c.check(ids.insert(o.id).second, "repeated id", fmt("update %zu: id %ld", s, o.id)); }
    }
    if(!c.check(in.size() == N, "number of particles", fmt("update %zu: %zu of %zu", s, in.size(), N))) return;
    std::map<long, size_t> no;
    for(size_t i = 0; i < N; ++i) no[k.p[i].id] = i;
    vector<POut> src(N);
    for(auto & o : in) {
      if(!c.check(no.count(o.id), "lost particle", fmt("update %zu: id %ld", s, o.id))) return;
      size_t i = no[o.id];
      auto & p = k.p[i];
      src[i] = o;
      c.check(o.m == p.m && o.h == p.h && o.u == p.u, "attributes", fmt("update %zu particle %zu", s, i));
      for(int d = 0; d < D; ++d) {
        c.check(o.v[d] == p.v[d], "velocity", fmt("update %zu particle %zu component %d: %g want %g", s, i, d, o.v[d], p.v[d]));
        double e = o.x[d] - at[i][d], w = per[d] ? std::round(e / L[d]) * L[d] : 0;
        c.check(std::abs(e - w) <= 1e-13, "position", fmt("update %zu particle %zu component %d: %.17g from %.17g", s, i, d, o.x[d], at[i][d]));
        if(per[d]) c.check(std::abs(o.x[d]) <= L[d] / 2 * (1 + 1e-15), "outside the box", fmt("update %zu particle %zu component %d: %.17g", s, i, d, o.x[d]));
        hh = hd(hh, o.x[d]);
      }
    }
    // images: copies shifted by whole boxes, each once
    std::set<std::array<int, 4>> have;
    for(auto & o : im) {
      bool found = false;
      for(size_t i = 0; i < N && !found; ++i) {
        auto & q = src[i];
        if(o.m != q.m || o.u != q.u) continue;
        std::array<int, 4> key{(int)i, 0, 0, 0};
        bool ok = o.h == q.h;
        for(int d = 0; d < D; ++d) { double e = o.x[d] - q.x[d]; key[d + 1] = per[d] ? std::lround(e / L[d]) : 0; ok &= std::abs(e - key[d + 1] * (per[d] ? L[d] : 0)) <= 1e-13 && o.v[d] == q.v[d]; }
        if(!ok || !(key[1] || key[2] || key[3])) continue;
        found = true;
        c.check(have.insert(key).second, "image twice", fmt("update %zu particle %zu shift %d %d %d", s, i, key[1], key[2], key[3]));
      }
      c.check(found, "not a copy", fmt("update %zu: image %ld at %.15g %.15g %.15g mass %g", s, o.id, o.x[0], o.x[1], o.x[2], o.m));
    }
    for(size_t i = 0; i < N; ++i) for(int z = 0; z < 27; ++z) {
      int sh[3] = {z % 3 - 1, z / 3 % 3 - 1, z / 9 - 1};
      bool ok = sh[0] || sh[1] || sh[2], must = true, near = false;
      for(int d = 0; d < 3; ++d) if(sh[d]) {
        if(d >= D || !per[d]) { ok = false; break; }
        double gap = std::abs(src[i].x[d] + sh[d] * L[d]) - L[d] / 2; // how far outside
        must &= gap < 2.4 * h; // an image out to two smoothing lengths (and some) matters
      }
      if(ok && must) c.check(have.count({(int)i, sh[0], sh[1], sh[2]}), "missing image", fmt("update %zu: particle %zu at %.15g %.15g %.15g shift %d %d %d", s, i, src[i].x[0], src[i].x[1], src[i].x[2], sh[0], sh[1], sh[2]));
    }
    hh = mix(hh, im.size());
  }
  c.outcome(hh);
}
static void enumerate(Ctx & c) {
  th::scratch();
  auto & Lb = th::RankLibs<per_entry_t>::get("p" + std::to_string(D), "per_entry");
  for(int i = 0; i < 4; ++i) Lb.fn[i];
  bool T = c.thorough;
  // places along one axis, in units of the half box: faces, next to them, inside, outside
  const double A[] = {-1, 1, 0, -.97, .9, 1.2, -1.15, 1 - 1e-12, -1 - 1e-12, .45, -.4};
  const int NA = 11;
  vector<std::array<double, 3>> place;
  if(D == 1) for(int i = 0; i < NA; ++i) place.push_back({A[i], 0, 0});
  if(D == 2) for(int i = 0; i < NA; ++i) for(int j : {i, (i + 3) % NA, (i + 7) % NA}) place.push_back({A[i], A[j], 0});
  if(D == 3) for(int i = 0; i < NA; ++i) for(int j = 0; j < 3; ++j) place.push_back({A[i], A[(i + 4 * j) % NA], A[(i * (j + 1) + j) % NA]});
  static const double V[5][3] = {{.3, -.2, .1}, {-1.1, .6, .9}, {0, 0, 0}, {1.9, -2.4, 1.3}, {-.05, .02, -1.7}};
  long cs = 0;
  for(int N = 2; N <= (T ? 5 : 4); ++N) for(size_t a = 0; a < place.size(); ++a) for(int st = 1; st <= (T ? 7 : 4); ++st) for(int pm = 1; pm < (1 << D); ++pm) for(int n = 1; n <= 4; ++n) for(int hk = 0; hk < 3; ++hk) for(int sp = 0; sp < (n == 1 ? 1 : 3); ++sp) {
    ++cs;
    if(n > N || (!T && D > 1 && cs % (D == 2 ? 5 : 13))) continue;
    PCase k;
    k.n = n;
    double h = hk == 2 ? .75 : hk ? .3 : .11;
    bool per[3] = {bool(pm & 1), bool(pm & 2), bool(pm & 4)};
    for(int i = 0; i < N; ++i) {
      PP p{};
      auto & x = place[(a + i * st * (i + 1) / 2) % place.size()];
      for(int d = 0; d < D; ++d) { double s = x[d]; if(!per[d] && std::abs(s) > 1) s *= .5; p.x[d] = s * L[d] / 2 + (i ? .011 * i * (s < 0 ? 1 : -1) : 0); p.v[d] = V[(a + i) % 5][d] * (per[d] ? 1 : .1); }
      p.m = 1 + i; p.h = i % 2 ? h : h * .8; p.u = 10 + i; p.id = i;
      k.p.push_back(p);
      // balanced, all on the last, alternating pairs
      k.owner.push_back(sp == 0 ? i * n / N : sp == 1 ? i % n : n - 1 - i % n);
    }
    double hm = 0;
    for(auto & p : k.p) hm = std::max(hm, p.h);
    auto set = [&](const char * q, const string & b) { k.par.push_back({q, b}); };
    set("periodic_boundary_x", per[0] ? "yes" : "no"); set("periodic_boundary_y", per[1] ? "yes" : "no"); set("periodic_boundary_z", per[2] ? "yes" : "no");
    set("box_length", fmt("%.17g", L[0])); set("box_width", fmt("%.17g", L[1])); set("box_height", fmt("%.17g", L[2])); set("sph_kernel", "\"wendland c4\"");
    static const vector<vector<double>> DT = {{.5, .5, .25}, {.1, .9}, {1}};
    k.dt = DT[cs % 3];
    if(c.want([&] { return fmt("%dD %d particles from place %zu stride %d periodic %d on %d ranks split %d h %g", D, N, a, st, pm, n, sp, h); }))
      c.isolated([&] {
        sim::Sched sc;
        for(int i = 0; i < n; ++i) sc.prio.push_back(cs % 2 ? n - 1 - i : i);
        sc.rendezvous = cs % 3 == 0;
        one(c, k, per, hm, sc);
      });
  }
}
int main(int argc, char ** argv) { return mc::main_run(argc, argv, enumerate); }
