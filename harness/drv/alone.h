#pragma once
static double scale(const Snap & s, const string & k) { double m = 0; if(s.col.count(k)) for(double x : s.col.at(k)) if(std::isfinite(x)) m = std::max(m, std::abs(x)); return m; }
// particle by particle comparison of two snapshots
static bool same(Ctx & c, const Snap & a, const Snap & b, const string & what, double tol) {
  if(!c.check(a.it == b.it && std::abs(a.t - b.t) <= tol * (std::abs(a.t) + 1e-30), "time", what + fmt(": iteration %ld time %.15g, other %ld %.15g", a.it, a.t, b.it, b.t))) return false;
  if(!c.check(a.n == b.n, "number", what + fmt(": %zu particles, other %zu", a.n, b.n))) return false;
  std::map<long, size_t> ia, ib;
  for(size_t i = 0; i < a.n; ++i) ia[a.id[i]] = i, ib[b.id[i]] = i;
  if(!c.check(ia.size() == a.n && ib.size() == b.n, "ids", what + ": repeated ids")) return false;
  for(auto & col : a.col) {
    if(!b.col.count(col.first)) { c.fail("column", what + " " + col.first); return false; }
    if(IGN.count(col.first)) continue;
    double s = scale(a, col.first);
    if(col.first[0] == 'x' || col.first[0] == 'y' || col.first[0] == 'z') s = std::max(s, 1.);
    if(col.first[0] == 'v') s = std::max(s, .01);
    if(col.first[0] == 'a') s = std::max(s, .1);
    for(auto & p : ia) {
      if(!ib.count(p.first)) { c.fail("ids", what + fmt(": particle %ld missing", p.first)); return false; }
      double x = col.second[p.second], y = b.col.at(col.first)[ib[p.first]];
      if(std::isnan(x) && std::isnan(y)) continue;
      if(!c.check(std::abs(x - y) <= tol * s, col.first, what + fmt(": particle %ld %s %.15g, other %.15g at iteration %ld (scale %g)", p.first, col.first.c_str(), x, y, a.it, s))) return false;
    }
  }
  return true;
}
// a run in a process of its own; snapshots come back through the out file's contents
static Out alone(Ctx & c, const Setup & S, int ord, int np, const sim::Sched & sc) {
  Out R;
  string f = "result.bin";
  unlink(f.c_str());
  c.isolated([&] {
    unlink("in.h5part"); unlink("out.h5part"); h5::reset();
    th::save_particles("in.h5part", S.D, order(S.p, ord));
    Out o = drive(c, S.tag, np, S.par, sc);
    std::ofstream w(f, std::ios::binary);
    auto pd = [&](double d) { w.write((char *)&d, 8); };
    auto pl = [&](long d) { w.write((char *)&d, 8); };
    auto ps = [&](const string & s) { pl(s.size()); w.write(s.data(), s.size()); };
    pl(o.ok); ps(o.err); pl(o.snap.size());
    for(auto & s : o.snap) { pl(s.it); pd(s.t); pd(s.dt); pl(s.n); for(long i : s.id) pl(i); pl(s.col.size()); for(auto & q : s.col) { ps(q.first); pl(q.second.size()); for(double d : q.second) pd(d); } }
    pl(o.nopt.size()); for(auto n : o.nopt) pl(n);
    for(auto * t : {&o.scalar, &o.diag}) { pl(t->size()); for(auto & r : *t) { pl(r.size()); for(double d : r) pd(d); } }
  });
  std::ifstream w(f, std::ios::binary);
  auto gd = [&] { double d = 0; w.read((char *)&d, 8); return d; };
  auto gl = [&] { long d = 0; w.read((char *)&d, 8); return d; };
  auto gs = [&] { string s(gl(), 0); w.read(&s[0], s.size()); return s; };
  R.ok = gl(); R.err = gs(); R.snap.resize(gl());
  for(auto & s : R.snap) { s.it = gl(); s.t = gd(); s.dt = gd(); s.n = gl(); s.id.resize(s.n); for(auto & i : s.id) i = gl(); long k = gl(); while(k--) { string q = gs(); auto & v = s.col[q]; v.resize(gl()); for(auto & d : v) d = gd(); } }
  R.nopt.resize(gl()); for(auto & n : R.nopt) n = gl();
  for(auto * t : {&R.scalar, &R.diag}) { t->resize(gl()); for(auto & r : *t) { r.resize(gl()); for(auto & d : r) d = gd(); } }
  return R;
}
