// Properties of the domain update, neighbour search, ghost refresh and tree
// nodes, decided by exploring the real code on simulated ranks.
#include "common.h"
using namespace th;
#ifndef PROP
#define PROP 1
#endif
static std::vector<TRes> res;
static std::string sid(long i) { return "#" + std::to_string(i); }

static uint64_t hash_res(const TCase & c) {
  uint64_t h = 1;
  for(int r = 0; r < c.n; ++r) for(auto & s : res[r].step) {
    for(auto & b : s.bodies) { h = mc::mix(h, b.id); h = mc::hd(h, b.x[0]); h = mc::mix(h, b.key); h = mc::hd(h, b.ga[0]); }
    for(auto & w : s.sweep) { h = mc::mix(h, w.id); for(size_t i = 0; i < w.nb.size(); ++i) { h = mc::mix(h, w.nb[i]); h = mc::hd(h, w.nbrho[i]); } }
    for(auto & q : s.found) for(long i : q) h = mc::mix(h, i);
    for(auto & n : s.nodes) { h = mc::mix(h, n.key); h = mc::mix(h, n.count); h = mc::hd(h, n.mass); }
  }
  return h;
}
static double d2(const TBody & a, const TBody & b, int D) {
  double s = 0;
  for(int d = 0; d < D; ++d) s += (a.x[d] - b.x[d]) * (a.x[d] - b.x[d]);
  return s;
}
// ---- C01: neighbour lists ------------------------------------------------------
static void check_sweep(mc::Ctx & c, const TCase & t, int D, size_t s) {
  std::map<long, const TBody *> all;
  for(int r = 0; r < t.n; ++r) for(auto & b : res[r].step[s].bodies) all[b.id] = &b;
  c.eval();
  if(all.size() != t.p.size()) c.fail("lost-particle", mc::fmt("%zu of %zu particles present", all.size(), t.p.size()));
  for(int r = 0; r < t.n; ++r) {
    auto & st = res[r].step[s];
    std::map<long, int> cnt;
    for(auto & w : st.sweep) ++cnt[w.id];
    for(auto & b : st.bodies) {
      c.eval();
      if(cnt[b.id] != 1) { c.fail("applied-count", mc::fmt("step %zu rank %d: particle #%ld visited %d times", s, r, b.id, cnt[b.id])); return; }
    }
    if(st.sweep.size() != st.bodies.size()) { c.fail("applied-foreign", mc::fmt("step %zu rank %d: %zu visits for %zu particles", s, r, st.sweep.size(), st.bodies.size())); return; }
    for(auto & w : st.sweep) {
      auto & me = *all.at(w.id);
      std::set<long> nb;
      for(long q : w.nb) {
        if(!nb.insert(q).second) { c.fail("duplicate", mc::fmt("step %zu rank %d: neighbour #%ld of #%ld listed twice", s, r, q, w.id)); return; }
        if(!all.count(q)) { c.fail("unknown", mc::fmt("step %zu rank %d: neighbour id %ld of #%ld does not exist", s, r, q, w.id)); return; }
      }
      c.eval(all.size());
      for(auto & e : all) {
        auto & o = *e.second;
        double dd = d2(me, o, D), mean = (me.h + o.h) / 2, mx = std::max(me.h, o.h);
        bool in = nb.count(o.id);
        if(!in && dd <= mean * mean) { c.fail("missing", mc::fmt("step %zu rank %d: #%ld at distance %g is missing from the neighbours of #%ld (h %g, %g)", s, r, o.id, sqrt(dd), w.id, o.h, me.h)); return; }
        if(in && dd > mx * mx) { c.fail("too-far", mc::fmt("step %zu rank %d: #%ld at distance %g listed for #%ld (h %g, %g)", s, r, o.id, sqrt(dd), w.id, o.h, me.h)); return; }
      }
    }
  }
}
// ---- C32: searches around a point ----------------------------------------------
static std::vector<std::array<double, 4>> make_queries(const Cfg & f) {
  std::vector<std::array<double, 4>> qs;
  auto add = [&](const double * x, double r) { qs.push_back({x[0], f.D > 1 ? x[1] : 0, f.D > 2 ? x[2] : 0, r}); };
  size_t N = f.p.size();
  for(size_t i = 0; i < N; i += 1 + N / 12) {
    auto & a = f.p[i];
    auto & b = f.p[(i + 1 + i % 3) % N];
    double mid[3], out[3], dd = 0;
    for(int d = 0; d < f.D; ++d) mid[d] = (a.x[d] + b.x[d]) / 2, out[d] = 2 * a.x[d] - b.x[d], dd += (a.x[d] - b.x[d]) * (a.x[d] - b.x[d]);
    for(double r : {0., .5, 1., 1.5, 2.}) add(a.x, r);
    for(double r : {.25, 1.}) add(mid, r), add(out, r);
    add(a.x, sqrt(dd)); add(a.x, a.h); add(mid, 1e3);
  }
  return qs;
}
static void check_found(mc::Ctx & c, const TCase & t, int D, size_t s) {
  std::map<long, const TBody *> all;
  for(int r = 0; r < t.n; ++r) for(auto & b : res[r].step[s].bodies) all[b.id] = &b;
  for(int r = 0; r < t.n; ++r) {
    auto & st = res[r].step[s];
    if(!c.check(st.found.size() == t.queries.size(), "searches", mc::fmt("%zu of %zu", st.found.size(), t.queries.size()))) return;
    std::set<long> own;
    for(auto & b : st.bodies) own.insert(b.id);
    for(size_t k = 0; k < t.queries.size(); ++k) {
      auto & q = t.queries[k];
      std::set<long> got;
      auto at = [&] { return mc::fmt("step %zu rank %d: search at (%g %g %g) radius %g: ", s, r, q[0], q[1], q[2], q[3]); };
      for(long i : st.found[k]) {
        if(!got.insert(i).second) { c.fail("search-twice", at() + sid(i) + " found twice"); return; }
        if(!all.count(i)) { c.fail("search-unknown", at() + sid(i) + " does not exist"); return; }
      }
      for(auto & e : all) {
        auto & o = *e.second;
        double dd = 0, mx = std::max(q[3], o.h);
        for(int d = 0; d < D; ++d) dd += (o.x[d] - q[d]) * (o.x[d] - q[d]);
        bool in = got.count(o.id);
        c.eval();
        if(!in && own.count(o.id) && dd <= q[3] * q[3] * (1 - 1e-12)) { c.fail("search-missing", at() + sid(o.id) + mc::fmt(" at distance %g is missing", sqrt(dd))); return; }
        if(!in && t.n == 1 && dd <= mx * mx * (1 - 1e-12)) { c.fail("search-reach", at() + sid(o.id) + mc::fmt(" at distance %g with h %g is missing", sqrt(dd), o.h)); return; }
        if(in && dd > mx * mx) { c.fail("search-far", at() + sid(o.id) + mc::fmt(" at distance %g with h %g found", sqrt(dd), o.h)); return; }
      }
    }
  }
}
// ---- C02: values neighbours are seen with ----------------------------------------
struct Val { double rho, u, v, x, m; };
static void check_fresh(mc::Ctx & c, const TCase & t) {
  // history of every particle's field values; index since the last refresh
  std::map<long, std::vector<Val>> hist;
  std::map<long, std::vector<Val>> seen; // admissible remote values
  for(auto & q : t.p) hist[q.id] = {};
  for(size_t s = 0; s < t.prog.size(); ++s) {
    std::map<long, std::pair<int, Val>> cur;
    for(int r = 0; r < t.n; ++r) for(auto & b : res[r].step[s].bodies) cur[b.id] = {r, Val{b.rho, b.u, b.v[0], b.x[0], b.m}};
    char op = t.prog[s].op;
    if(op == 'U' || op == 'R') for(auto & e : cur) seen[e.first] = {e.second.second};
    if(op == 'F') for(auto & e : cur) seen[e.first].push_back(e.second.second);
    if(op != 'S') continue;
    for(int r = 0; r < t.n; ++r) for(auto & w : res[r].step[s].sweep) for(size_t k = 0; k < w.nb.size(); ++k) {
      long q = w.nb[k];
      if(!cur.count(q)) continue;
      Val g{w.nbrho[k], w.nbu[k], w.nbv[k], w.nbx[k], w.nbm[k]};
      auto eq = [&](const Val & a) { return a.rho == g.rho && a.u == g.u && a.v == g.v && a.x == g.x && a.m == g.m; };
      bool ok = false;
      c.eval();
      if(cur[q].first == r) ok = eq(cur[q].second);
      else for(auto & a : seen[q]) ok |= eq(a);
      if(!ok) {
        auto & a = cur[q].second;
        c.fail(cur[q].first == r ? "local-stale" : "ghost-stale", mc::fmt("step %zu rank %d: neighbour #%ld (owner %d) of #%ld seen with rho=%g u=%g v=%g x=%g m=%g; owner holds rho=%g u=%g v=%g x=%g m=%g", s, r, q, cur[q].first,
          w.id, g.rho, g.u, g.v, g.x, g.m, a.rho, a.u, a.v, a.x, a.m));
        return;
      }
    }
  }
}
// ---- C04: node aggregates -----------------------------------------------------------
static bool near(double a, double b, double scale) { return std::abs(a - b) <= 1e-12 * (scale + std::abs(a) + std::abs(b)); }
static void check_nodes(mc::Ctx & c, const TCase & t, int D, size_t s, int maxdepth) {
  std::vector<const TBody *> all;
  std::map<long, const TBody *> by;
  for(int r = 0; r < t.n; ++r) for(auto & b : res[r].step[s].bodies) { all.push_back(&b); by[b.id] = &b; }
  double scale = 0;
  for(auto * b : all) for(int d = 0; d < D; ++d) scale = std::max(scale, std::abs(b->x[d]) + b->h);
  for(int r = 0; r < t.n; ++r) {
    auto & st = res[r].step[s];
    std::set<long> reach;
    std::set<uint64_t> keys;
    bool root = false;
    for(auto & n : st.nodes) {
      c.eval();
      if(!keys.insert(n.key).second) { c.fail("node-twice", mc::fmt("rank %d: cell %lo reached twice", r, n.key)); return; }
      auto inside = [&](const TBody & b) { return (b.key >> (D * (maxdepth - n.depth))) == n.key; };
      if(n.entity) {
        reach.insert(n.id);
        auto it = by.find(n.id);
        if(it == by.end()) { c.fail("ghost-unknown", mc::fmt("rank %d: tree holds particle id %ld which nobody owns", r, n.id)); return; }
        if(!inside(*it->second)) { c.fail("leaf-place", mc::fmt("rank %d: particle #%ld hangs in cell %lo which does not contain its key", r, n.id, n.key)); return; }
        continue;
      }
      long cnt = 0;
      double m = 0, com[3] = {0, 0, 0};
      for(auto * b : all) if(inside(*b)) {
        ++cnt;
        m += b->m;
        for(int d = 0; d < D; ++d) com[d] += b->m * b->x[d];
      }
      if(n.depth == 0) {
        root = true;
        if(cnt != (long)all.size()) { c.fail("key-root", "root does not contain every key"); return; }
      }
      auto where = mc::fmt("step %zu rank %d node depth %d key %lo", s, r, n.depth, n.key);
      if(n.count != cnt) { c.fail("node-count", where + mc::fmt(": says %ld particles, its cell has %ld", n.count, cnt)); return; }
      if(!near(n.mass, m, 0)) { c.fail("node-mass", where + mc::fmt(": mass %.17g, its particles have %.17g", n.mass, m)); return; }
      for(int d = 0; d < D; ++d) if(!near(n.com[d], com[d] / m, scale)) { c.fail("node-com", where + mc::fmt(": centre of mass %.17g vs %.17g (axis %d)", n.com[d], com[d] / m, d)); return; }
      for(auto * b : all) if(inside(*b)) {
        double dist = 0;
        for(int d = 0; d < D; ++d) {
          dist += (b->x[d] - n.com[d]) * (b->x[d] - n.com[d]);
          if(b->x[d] - b->h / 2 < n.bmin[d] - 1e-12 * scale || b->x[d] + b->h / 2 > n.bmax[d] + 1e-12 * scale) {
            c.fail("node-box", where + mc::fmt(": box [%g,%g] on axis %d does not enclose #%ld at %g (h %g)", n.bmin[d], n.bmax[d], d, b->id, b->x[d], b->h));
            return;
          }
        }
        if(sqrt(dist) > n.radius * (1 + 1e-12) + 1e-12 * scale) { c.fail("node-radius", where + mc::fmt(": radius %g does not reach #%ld at distance %g", n.radius, b->id, sqrt(dist))); return; }
      }
    }
    if(!root) { c.fail("no-root", mc::fmt("rank %d: traversal saw no root node", r)); return; }
    for(auto & b : st.bodies) if(!reach.count(b.id)) { c.fail("unreachable", mc::fmt("step %zu rank %d: local particle #%ld not reachable from the root", s, r, b.id)); return; }
  }
}
// ---- C07: redistribution -------------------------------------------------------------
static uint64_t ref_morton(const double * x, const double (*rg)[3], int D, int maxdepth) {
  uint64_t c[3] = {0, 0, 0}, mx = (uint64_t)1 << maxdepth;
  for(int d = 0; d < D; ++d) {
    double s = (x[d] - rg[0][d]) / (rg[1][d] - rg[0][d]);
    c[d] = (uint64_t)(s * (double)mx);
    if(c[d] >= mx) c[d] = mx - 1;
  }
  uint64_t k = 1;
  for(int b = maxdepth - 1; b >= 0; --b) { uint64_t dg = 0; for(int d = 0; d < D; ++d) dg |= ((c[d] >> b) & 1) << d; k = (k << D) | dg; }
  return k;
}
static void check_update(mc::Ctx & c, const TCase & t, int D, size_t s) {
  // state before: previous step (or the initial particles)
  std::map<long, TBody> before;
  std::vector<long> cnt(t.n, 0);
  if(s == 0) {
    size_t N = t.p.size(), at = 0;
    for(int r = 0; r < t.n; ++r) {
      cnt[r] = (long)(N / t.n + (r < (int)(N % t.n) ? 1 : 0));
      for(long k = 0; k < cnt[r]; ++k, ++at) {
        TBody b{};
        auto & q = t.p[at];
        b.id = q.id;
        for(int d = 0; d < D; ++d) { b.x[d] = q.x[d]; b.v[d] = q.v[d]; }
        b.h = q.h; b.m = q.m; b.rho = q.rho; b.u = q.u;
        before[q.id] = b;
      }
    }
  }
  else for(int r = 0; r < t.n; ++r) {
    cnt[r] = (long)res[r].step[s - 1].bodies.size();
    for(auto & b : res[r].step[s - 1].bodies) before[b.id] = b;
  }
  double rg[2][3];
  uint64_t last = 0;
  std::set<long> ids;
  for(int r = 0; r < t.n; ++r) {
    auto & st = res[r].step[s];
    if(r == 0) memcpy(rg, st.range, sizeof rg);
    c.eval();
    for(int k = 0; k < 2; ++k) for(int d = 0; d < D; ++d)
      if(rg[k][d] != st.range[k][d]) { c.fail("range-differs", mc::fmt("step %zu: rank %d has range %g, rank 0 %g", s, r, st.range[k][d], rg[k][d])); return; }
    if((long)st.bodies.size() != cnt[r] || st.nlocal != cnt[r]) { c.fail("count", mc::fmt("step %zu rank %d: %zu particles (reported %ld), had %ld", s, r, st.bodies.size(), st.nlocal, cnt[r])); return; }
    if(st.ntotal != (long)t.p.size()) { c.fail("total", mc::fmt("step %zu rank %d: total %ld of %zu", s, r, st.ntotal, t.p.size())); return; }
    for(auto & b : st.bodies) {
      c.eval();
      if(!ids.insert(b.id).second) { c.fail("twice", mc::fmt("step %zu: particle #%ld owned twice", s, b.id)); return; }
      auto it = before.find(b.id);
      if(it == before.end()) { c.fail("invented", mc::fmt("step %zu: particle id %ld did not exist", s, b.id)); return; }
      auto & o = it->second;
      bool same = o.h == b.h && o.m == b.m && o.rho == b.rho && o.u == b.u;
      for(int d = 0; d < D; ++d) same = same && o.x[d] == b.x[d] && o.v[d] == b.v[d];
      if(!same) { c.fail("attribute", mc::fmt("step %zu: particle #%ld changed: x %g->%g m %g->%g h %g->%g rho %g->%g u %g->%g", s, b.id, o.x[0], b.x[0], o.m, b.m, o.h, b.h, o.rho, b.rho, o.u, b.u)); return; }
      for(int d = 0; d < D; ++d) if(b.x[d] - b.h < rg[0][d] || b.x[d] + b.h > rg[1][d]) { c.fail("range-cover", mc::fmt("step %zu: range [%g,%g] does not cover #%ld at %g h %g", s, rg[0][d], rg[1][d], b.id, b.x[d], b.h)); return; }
      if(b.key < last) { c.fail("key-order", mc::fmt("step %zu rank %d: key of #%ld below its predecessor", s, r, b.id)); return; }
      last = b.key;
      uint64_t k = ref_morton(b.x, rg, D, 63 / D);
      if(k != b.key) { c.fail("key-value", mc::fmt("step %zu rank %d: particle #%ld has key %lo, its position gives %lo", s, r, b.id, b.key, k)); return; }
    }
  }
  if(ids.size() != t.p.size()) c.fail("lost", mc::fmt("step %zu: %zu of %zu particles left", s, ids.size(), t.p.size()));
}
// ---- C06: gravity ----------------------------------------------------------------------
static std::map<long, std::array<double, 4>> grav_ref; // across schedules of a case
static void check_gravity(mc::Ctx & c, const TCase & t, int D, size_t s, double angle, bool first) {
  std::vector<const TBody *> all;
  for(int r = 0; r < t.n; ++r) for(auto & b : res[r].step[s].bodies) all.push_back(&b);
  for(auto * a : all) {
    double g[3] = {0, 0, 0}, p = 0, ng = 0, np = 0;
    for(auto * b : all) {
      if(a->id == b->id) continue;
      double r[3], q = 0;
      for(int d = 0; d < 3; ++d) { r[d] = a->x[d] - b->x[d]; q += r[d] * r[d]; }
      double R = sqrt(q);
      for(int d = 0; d < 3; ++d) g[d] -= b->m * r[d] / (q * R);
      p -= b->m / R;
      ng += b->m / q;
      np += b->m / R;
    }
    double eg = 0;
    for(int d = 0; d < 3; ++d) eg = std::max(eg, std::abs(g[d] - a->ga[d]));
    double ep = std::abs(p - a->gp);
    c.eval();
    // accepted cells: first neglected terms of source (quadrupole) and sink series
    double om = 1 - angle;
    double bg = angle == 0 ? 1e-12 : 6 * angle * angle / (om * om * om * om * om), bp = angle == 0 ? 1e-12 : 3 * angle * angle / (om * om * om * om);
    if(getenv("MC_VERBOSE")) fprintf(stderr, "angle %g eg/ng %g bound %g ep/np %g bound %g\n", angle, eg / ng, bg, ep / np, bp);
    if(!(eg <= bg * ng)) { c.fail(angle == 0 ? "direct-acc" : "mac-acc", mc::fmt("angle %g #%ld: acceleration (%.12g,%.12g,%.12g) direct (%.12g,%.12g,%.12g), rel %.3g", angle, a->id, a->ga[0], a->ga[1], a->ga[2], g[0], g[1], g[2], eg / ng)); return; }
    if(!(ep <= bp * np)) { c.fail(angle == 0 ? "direct-pot" : "mac-pot", mc::fmt("angle %g #%ld: potential %.12g direct %.12g", angle, a->id, a->gp, p)); return; }
    if(first) grav_ref[a->id] = {a->ga[0], a->ga[1], a->ga[2], a->gp};
    else {
      auto & f = grav_ref[a->id];
      for(int d = 0; d < 3; ++d) if(!(std::abs(f[d] - a->ga[d]) <= 1e-11 * ng)) { c.fail("timing", mc::fmt("angle %g #%ld: acceleration depends on timing or partition: %.15g vs %.15g", angle, a->id, f[d], a->ga[d])); return; }
      if(!(std::abs(f[3] - a->gp) <= 1e-11 * np)) { c.fail("timing", mc::fmt("angle %g #%ld: potential depends on timing or partition", angle, a->id)); return; }
    }
  }
}

static bool first_exec;
static void run_case(mc::Ctx & c, const Cfg & f, int n, const std::string & prog, const schedx::Opt & o, double arg = 0) {
  TCase t;
  t.n = n;
  t.p = f.p;
  if(PROP == 32) t.queries = make_queries(f);
  int k = 0;
  for(char ch : prog) {
    TOp op{ch, 0};
    if(ch == 'F') op.a = k++;
    if(ch == 'M') op.a = 3 + k++;
    if(ch == 'G') op.a = arg;
    t.prog.push_back(op);
  }
  auto & L = RankLibs<rank_entry_t>::get(std::to_string(f.D));
  scratch();
  first_exec = true;
  auto st = schedx::explore(c, n, o,
    [&] {
      res.assign(n, TRes());
      h5::reset();
      save_particles("in.h5part", f.D, f.p);
    },
    [&](int r) { L.fn[r](r, &t, &res[r]); },
    [&] {
      for(size_t s = 0; s < t.prog.size(); ++s) {
        char op = t.prog[s].op;
        if(PROP == 1 && op == 'S') check_sweep(c, t, f.D, s);
        if(PROP == 32 && op == 'Q') check_found(c, t, f.D, s);
        if(PROP == 4 && op == 'W') check_nodes(c, t, f.D, s, 63 / f.D);
        if(PROP == 7 && op == 'U') check_update(c, t, f.D, s);
        if(PROP == 6 && op == 'G') check_gravity(c, t, f.D, s, arg, first_exec);
      }
      if(PROP == 2) check_fresh(c, t);
      if(PROP == 3) c.eval();
      first_exec = false;
      return hash_res(t);
    });
  if(st.truncated) c.note("truncated");
}

static void enumerate(mc::Ctx & c) {
  schedx::Opt base, dev1, dev2;
  dev1.dev = 1;
  dev2.dev = 2;
  const bool T = c.thorough;
  if(PROP == 6) {
    // direct sum and acceptance angles
    std::vector<Cfg> cs;
    subsets(3, 4, [&](auto & s, int m) { cs.push_back(make(3, s, m % 2 ? 3 : 0, m % 3, mc::fmt("sub%d", m))); });
    subsets(3, 6, [&](auto & s, int m) { cs.push_back(make(3, s, 0, m % 3, mc::fmt("sub%d", m))); });
    int i = 0;
    for(auto & f : cs) for(int n = 1; n <= 3; ++n) {
      if(c.want([&] { return pstr(f) + mc::fmt(" ranks %d UZG angle 0", n); })) run_case(c, f, n, "UZG", base, 0);
      ++i;
    }
    i = 0;
    for(auto & f : cs) {
      ++i;
      if(!T && i % 16) continue;
      for(int n = 2; n <= (T ? 3 : 2); ++n)
        if(c.want([&] { return pstr(f) + mc::fmt(" ranks %d UZG angle 0 dev1", n); })) run_case(c, f, n, "UZG", T && i % 8 == 0 && n == 2 ? dev2 : dev1, 0);
    }
    // clusters far apart: cells are accepted at these angles
    for(int kind = 0; kind < (T ? 6 : 3); ++kind) for(double an : {0., 0.05, 0.1, 0.25, 0.5}) {
      std::vector<std::array<double, 3>> pos;
      int nc = 2 + kind % 3;
      for(int k = 0; k < nc; ++k) for(int j = 0; j < 8; ++j) {
        double s = (kind % 2 ? 1. : 0.25) / (1 + k);
        std::array<double, 3> x{(j & 1) * s + 8. * k + 0.0625 * (j % 3), ((j >> 1) & 1) * s + 5. * (k % 2) + 0.03125 * (j % 5), ((j >> 2) & 1) * s + 11. * (k / 2) + 0.015625 * j};
        pos.push_back(x);
      }
      Cfg f = make(3, pos, 0, kind % 3, mc::fmt("clusters%d", kind));
      for(int n = 1; n <= (T ? 7 : 5); ++n)
        if(c.want([&] { return pstr(f) + mc::fmt(" ranks %d UZG angle %g", n, an); })) run_case(c, f, n, "UZG", base, an);
      if(T) for(int n = 2; n <= 3; ++n)
        if(c.want([&] { return pstr(f) + mc::fmt(" ranks %d UZG angle %g dev1", n, an); })) run_case(c, f, n, "UZG", dev1, an);
    }
    for(int k = 0; k < (T ? 3 : 1); ++k) for(int n : {2, 3, 5}) for(double an : {0., .6}) {
      if(!T && (n == 5)) continue;
      Cfg f = make(3, crowd(3, (an ? 2500 : 400) * n + 150 * k), k == 1 ? 3 : 0, 0, mc::fmt("crowd%d", k));
      schedx::Opt o = base;
      o.all_prio = false;
      if(c.want([&] { return pstr(f) + mc::fmt(" ranks %d UZG angle %g", n, an); })) run_case(c, f, n, "UZG", o, an);
    }
    for(int side = -1; side < 8; ++side) for(int n : {1, 2, 3}) for(double an : {0., .3}) {
      Cfg f = make(3, deep(3, side, 14), 0, (side + n + 1) % 4, mc::fmt("deep%d", side));
      schedx::Opt o = base;
      o.all_prio = T;
      if(c.want([&] { return pstr(f) + mc::fmt(" ranks %d UZG angle %g", n, an); })) run_case(c, f, n, "UZG", o, an);
    }
    for(int kind = 0; kind < 4; ++kind) for(int n : {1, 2, 3, 4, 5, 6, 7, 8, 9}) {
      if(!T && (n == 6 || n == 8)) continue;
      Cfg f = make(3, family(3, kind, kind == 1 ? 4 : T ? 6 : 5), 0, kind % 3, mc::fmt("fam%d", kind));
      for(double an : {0., 0.3}) {
        schedx::Opt o = base;
        o.all_prio = n <= 3;
        if(c.want([&] { return pstr(f) + mc::fmt(" ranks %d UZG angle %g", n, an); })) run_case(c, f, n, "UZGRZG", o, an);
      }
    }
    return;
  }
  std::vector<std::string> progs;
  if(PROP == 1) progs = {"US", "USS", "USRS", "UMUS"};
  if(PROP == 2) progs = {"UFRS", "USFRS", "UFS", "USFRSFRS", "USMFURS"};
  if(PROP == 3) progs = {"US", "USFRS", "UMUS"};
  if(PROP == 4) progs = {"UW", "URW", "USW", "USFRWSW", "UMUW"};
  if(PROP == 32) progs = {"UQ", "UQRQ", "USQ", "UMUQ"};
  if(PROP == 7) progs = {"U", "UU", "UMU", "UFMUMU"};
  for(int D = 1; D <= 3; ++D) {
    std::vector<Cfg> cs;
    int K0 = 4;
    for(int K = K0; K <= (T ? 6 : 5); ++K) subsets(D, K, [&](auto & s, int m) {
      for(int hp = 0; hp < 6; ++hp) {
        if(!T && (m + hp) % 2) continue;
        cs.push_back(make(D, s, hp, (m + hp) % 3, mc::fmt("sub%d", m)));
      }
    });
    int i = 0;
    for(auto & f : cs) {
      ++i;
      for(int n = 1; n <= 4; ++n) {
        if(!T && n == 4 && i % 4) continue;
        const std::string & prog = progs[(i + n) % progs.size()];
        schedx::Opt o = base;
        if(!T && n == 4) o.all_prio = false;
        if(c.want([&] { return pstr(f) + mc::fmt(" ranks %d %s", n, prog.c_str()); })) run_case(c, f, n, prog, o);
      }
    }
    // deviations from the base schedules
    i = 0;
    for(auto & f : cs) {
      ++i;
      if(i % (T ? 4 : 48)) continue;
      for(int n = 2; n <= 3; ++n) {
        const std::string & prog = progs[(i / (T ? 4 : 48) + n) % progs.size()];
        bool deep = T && (i / 4) % 10 == 0 && n == 2;
        if(c.want([&] { return pstr(f) + mc::fmt(" ranks %d %s dev%d", n, prog.c_str(), deep ? 2 : 1); })) run_case(c, f, n, prog, deep ? dev2 : dev1);
      }
    }
    // sets so large that a process sends and answers more than a hundred requests in one sweep
    for(int k = 0; k < (T ? 4 : 1); ++k) for(int n : {2, 3, 5}) {
      if(!T && (D == 1 || n == 2 || D == 2 && n == 3)) continue;
      Cfg f = make(D, crowd(D, 1400 * n + 600 * k), k == 1 ? 3 : 0, 0, mc::fmt("crowd%d", k));
      const std::string & prog = progs[(n + k) % progs.size()];
      schedx::Opt o = base;
      o.all_prio = false;
      if(c.want([&] { return pstr(f) + mc::fmt(" ranks %d %s", n, prog.c_str()); })) run_case(c, f, n, prog, o);
    }
    // very deep trees
    for(int side = -1; side < 1 << D; ++side) for(int n : {1, 2, 3, 5}) {
      int lv = D == 1 ? 30 : D == 2 ? 18 : 14;
      for(int step : {0, 1}) {
        if(step && !T && (side + n) % 2) continue;
        Cfg f = make(D, deep(D, side, lv - (step ? 5 : 0)), 0, (side + n + 1) % 4, mc::fmt("deep%d", side));
        std::string prog = progs[(n + side + 1) % progs.size()];
        if(D > 1 && prog.find('M') != prog.npos) prog = progs[0]; // the moves would put particles on one another
        schedx::Opt o = base;
        o.all_prio = T;
        if(c.want([&] { return pstr(f) + mc::fmt(" ranks %d %s", n, prog.c_str()); })) run_case(c, f, n, prog, o);
      }
    }
    // larger structured sets, many ranks, several message batches
    for(int kind = 0; kind < 4; ++kind) {
      int k = D == 1 ? (kind < 2 ? 60 : 9) : D == 2 ? (kind == 0 ? 14 : kind == 1 ? 9 : 8) : (kind == 0 ? 6 : kind == 1 ? 4 : 8);
      for(int n : {1, 2, 3, 4, 5, 6, 7, 8, 9}) {
        if(!T && (n == 4 || n == 6 || n == 8)) continue;
        for(int hp = 0; hp < (T ? 4 : 2); ++hp) {
          int h = (hp + n + kind) % 4;
          if(kind == 1 && h == 1) h = 0;
          Cfg f = make(D, family(D, kind, k), h, (n + kind) % 4, mc::fmt("fam%d", kind));
          const std::string & prog = progs[(n + hp + kind) % progs.size()];
          schedx::Opt o = base;
          o.all_prio = T && n <= 3;
          if(c.want([&] { return pstr(f) + mc::fmt(" ranks %d %s", n, prog.c_str()); })) run_case(c, f, n, prog, o);
        }
      }
    }
  }
}
int main(int argc, char ** argv) {
  sim::track_frees = true;
  return mc::main_run(argc, argv, enumerate, 1);
}
