// Written by any number of processes, read by any number: the same particles.
#include "life.h"
static double special(long k) {
  static const double S[] = {1.5, -0.0, 0, 1e308, -1e-308, 4.9e-324, -3.25, 1. / 3, -1e17 / 7, 123456789.123456789, 2.2250738585072014e-308, -1};
  return S[((k % 12) + 12) % 12];
}
static IB make(long i, int salt) {
  IB b{};
  long k = i * 5 + salt * 7;
  double * f[] = {&b.m, &b.h, &b.rho, &b.P, &b.u, &b.dt, &b.grad, &b.ss, &b.alpha, &b.div, &b.ddiv, &b.trig, &b.xi};
  for(auto p : f) *p = special(k++) + (salt & 1 ? .5 * i : 0);
  for(int d = 0; d < D; ++d) b.x[d] = special(k + d) + (salt & 1 ? i : 0), b.v[d] = special(k + 3 + d), b.a[d] = i + d * .25, b.g[d] = salt * .5 - d;
  b.id = salt & 2 ? 9007199254740993l + i * 3 : (i * 7 + 3) % 101; b.type = i % 2; b.state = (i + salt) % 4; b.nb = i * 3 + salt;
  return b;
}
static bool eq(double a, double b) { return memcmp(&a, &b, 8) == 0; }
static void checked(Ctx & c, const vector<IB> & want, int readers, const vector<LRes> & res, const char * how) {
  size_t N = want.size(), k = 0;
  for(int r = 0; r < readers; ++r) {
    size_t share = N / readers + (r < (int)(N % readers));
    c.check(res[r].b.size() == share && res[r].local == (long)share && res[r].total == (long)N, "share", fmt("%s: process %d of %d got %zu (reported %ld of %ld), balanced share %zu of %zu", how, r, readers, res[r].b.size(), res[r].local, res[r].total, share, N));
    for(auto & b : res[r].b) {
      if(k >= N) { c.fail("number", how); return; }
      auto & w = want[k];
      bool ok = b.id == w.id && b.type == w.type && b.state == w.state && eq(b.m, w.m) && eq(b.h, w.h) && eq(b.rho, w.rho) && eq(b.P, w.P) && eq(b.u, w.u) && eq(b.dt, w.dt);
      for(int d = 0; d < D; ++d) ok &= eq(b.x[d], w.x[d]) && eq(b.v[d], w.v[d]);
      c.check(ok, "fields", fmt("%s: particle %zu on process %d of %d: id %ld want %ld type %d/%d state %d/%d m %a/%a h %a/%a rho %a/%a P %a/%a u %a/%a dt %a/%a x %a/%a v %a/%a", how, k, r, readers, b.id, w.id, b.type, w.type, b.state, w.state, b.m, w.m, b.h, w.h, b.rho, w.rho, b.P, w.P, b.u, w.u, b.dt, w.dt, b.x[D - 1], w.x[D - 1], b.v[D - 1], w.v[D - 1]));
      ++k;
    }
  }
  c.check(k == N, "number", fmt("%s: %zu of %zu", how, k, N));
}
#ifdef REAL
static End job(Ctx & c, const Life & L, vector<LRes> & res, string & err) {
  Buf b; put(b, L);
  { std::ofstream o("life.bin", std::ios::binary); o.write(b.s.data(), b.s.size()); }
  for(int i = 0; i < L.n; ++i) unlink(("lres." + std::to_string(i)).c_str());
  string cmd = string("HOME=${HOME:-/tmp} TMPDIR=$PWD timeout 100 mpirun --allow-run-as-root --oversubscribe --mca btl_base_warn_component_unused 0 --mca btl self,vader --mca hwloc_base_binding_policy none -n ") + std::to_string(L.n) + " " + getenv("REALIO") + " life.bin lres > life.err 2>&1";
  int rc = system(cmd.c_str());
  c.exec();
  err = slurp("life.err");
  res.clear();
  for(int i = 0; i < L.n; ++i) { Buf q; q.s = slurp(("lres." + std::to_string(i)).c_str()); if(q.s.empty()) return rc ? CRASHED : REFUSED; res.push_back(getres(q)); }
  return rc ? CRASHED : DONE;
}
#else
static End job(Ctx & c, const Life & L, vector<LRes> & res, string & err) { static int k = 0; return life(c, L, plan(L.n, k++), res, err); }
// the file itself, column by column
static void raw(Ctx & c, const string & file, int step, const Write & w, bool single_first) {
  h5::thaw("store.bin");
  auto root = h5::load(file);
  if(!c.check(!!root, "file", file)) return;
  auto sn = "Step#" + std::to_string(step);
  if(!c.check(root->child.count(sn), "step", sn + " missing in " + file)) return;
  auto st = root->child[sn];
  c.check(root->attr.count("dimension") && root->attr["dimension"]->data.size() == 4 && *(int *)root->attr["dimension"]->data.data() == D, "dimension", file);
  auto at = [&](const char * n, auto v) { auto it = st->attr.find(n); c.check(it != st->attr.end() && it->second->data.size() == sizeof v && !memcmp(it->second->data.data(), &v, sizeof v), n, file + " " + sn); };
  at("time", w.time); at("iteration", (long)w.iter); at("timestep", w.dt);
  vector<IB> all; vector<long> rk;
  for(size_t r = 0; r < w.of.size(); ++r) for(auto & b : w.of[r]) all.push_back(b), rk.push_back(r);
  auto col = [&](const char * n, auto get) {
    using T = decltype(get(0));
    if(!c.check(st->child.count(n), string("column ") + n, "missing")) return;
    auto & o = st->child[n];
    if(!c.check(o->data.size() == sizeof(T) * all.size(), string("column ") + n, fmt("%zu bytes for %zu particles", o->data.size(), all.size()))) return;
    for(size_t i = 0; i < all.size(); ++i) { T v = get(i); if(!c.check(!memcmp(o->data.data() + i * sizeof(T), &v, sizeof(T)), string("column ") + n, fmt("entry %zu", i))) return; }
  };
  const char *X[] = {"x", "y", "z"}, *V[] = {"vx", "vy", "vz"}, *A[] = {"ax", "ay", "az"};
  for(int d = 0; d < 3; ++d) { col(X[d], [&](size_t i) { return d < D ? all[i].x[d] : 0.; }); col(V[d], [&](size_t i) { return d < D ? all[i].v[d] : 0.; }); col(A[d], [&](size_t i) { return d < D ? all[i].a[d] + all[i].g[d] : 0.; }); }
#define COL(N, F) col(N, [&](size_t i) { return all[i].F; })
  COL("m", m); COL("h", h); COL("rho", rho); COL("P", P); COL("u", u); COL("dt", dt); COL("gradV", grad); COL("traceSS", ss); COL("alpha", alpha); COL("divergenceV", div); COL("dDivVdt", ddiv); COL("trigger", trig); COL("xi", xi); COL("id", id); COL("type", type); COL("state", state); COL("neighbors", nb);
  col("rank", [&](size_t i) { return rk[i]; });
}
#endif
static void enumerate(Ctx & c) {
  th::scratch();
  mkdir("sub", 0755);
  bool T = c.thorough;
#ifdef REAL
  const int MN = 5, MW = 3, stride = T ? 23 : 101;
#else
  const int MN = T ? 7 : 5, MW = T ? 4 : 3, stride = 1;
#endif
  long cs = 0;
  // every split of N particles over the writers, every number of readers
  for(int N = 1; N <= MN; ++N) for(int w = 1; w <= MW; ++w) for(long s = 0; s < (long)std::pow(N + 1, w); ++s) {
    vector<int> cnt(w);
    long z = s, sum = 0;
    for(int i = 0; i < w; ++i) cnt[i] = z % (N + 1), z /= N + 1, sum += cnt[i];
    if(sum != N) continue;
    for(int rd = 1; rd <= (T ? 6 : 5); ++rd) for(int sep = 0; sep < 2; ++sep) for(int salt = 0; salt < 4; ++salt) {
      if(++cs % stride) continue;
      string cd;
      for(int x : cnt) cd += std::to_string(x) + " ";
      if(!c.want([&] { return fmt("%d particles written as %sread by %d%s values %d", N, cd.c_str(), rd, sep ? " separate files" : "", salt); })) continue;
      clear_dir("."); clear_dir("sub"); unlink("store.bin");
      string pre = salt & 1 ? "sub/out" : "out";
      Life W{w, (bool)sep, "x", pre, 0};
      long id = 0;
      for(int k = 0; k < 3; ++k) { // three snapshots, the second is read; its successor has other particles
        Write q{pre, k * 4, .5 + k / 3., .001 / (k + 3)};
        q.of.resize(w);
        for(int i = 0; i < w; ++i) for(int j = 0; j < cnt[(i + k) % w]; ++j) q.of[i].push_back(make(id++, salt + k));
        W.writes.push_back(q);
      }
      vector<LRes> res; string err;
      End e = job(c, W, res, err);
      if(!c.check(e == DONE, string("writing ") + END[e], err)) continue;
#ifndef REAL
      for(int k = 0; k < 3; ++k) raw(c, sep ? fmt("%s_%05d.h5part", pre.c_str(), k) : pre + ".h5part", k, W.writes[k], !k);
#endif
      for(int k = 1; k < 3; ++k) {
        Life R{rd, (bool)sep, pre, "other", k * 4, true};
        e = job(c, R, res, err);
        if(!c.check(e == DONE, string("reading ") + END[e], err)) continue;
        vector<IB> all;
        for(auto & r : W.writes[k].of) for(auto & b : r) all.push_back(b);
        checked(c, all, rd, res, fmt("snapshot %d", k).c_str());
        for(auto & r : res) c.check(eq(r.time, W.writes[k].time) && eq(r.dt, W.writes[k].dt), "time", fmt("%a %a, written %a %a", r.time, r.dt, W.writes[k].time, W.writes[k].dt));
      }
      if(!sep) {
        Life R{rd, false, pre, "other", 0, true};
        e = job(c, R, res, err);
        if(c.check(e == DONE, string("reading ") + END[e], err)) {
          vector<IB> all;
          for(auto & r : W.writes[0].of) for(auto & b : r) all.push_back(b);
          checked(c, all, rd, res, "first snapshot");
        }
      }
      uint64_t h = rd;
      for(auto & r : res) for(auto & b : r.b) h = hd(mix(h, b.id), b.x[0]);
      c.outcome(mix(h, s));
    }
  }
#ifndef REAL
  // columns left out: zeros; ids numbered from one
  static const char * COLS[] = {"y", "z", "vx", "vy", "vz", "m", "rho", "h", "P", "u", "id", "dt", "type", "state"};
  for(int N = 1; N <= (T ? 7 : 5); ++N) for(int rd = 1; rd <= 5; ++rd) for(int miss = -1; miss < 15; ++miss) for(int first : {0, 3}) {
    if(!c.want([&] { return fmt("%d particles without %s read by %d from iteration %d", N, miss < 0 ? "-" : miss == 14 ? "id, type, state" : COLS[miss], rd, first); })) continue;
    clear_dir("."); clear_dir("sub"); unlink("store.bin");
    h5::reset();
    auto root = std::make_shared<h5::Obj>(), st = std::make_shared<h5::Obj>();
    vector<IB> want;
    for(int i = 0; i < N; ++i) want.push_back(make(i, 1));
    auto dd = [&](const char * n, auto get) { vector<double> v; for(auto & b : want) v.push_back(get(b)); st->child[n] = h5::dset_d(v); };
    const char *X[] = {"x", "y", "z"}, *V[] = {"vx", "vy", "vz"};
    for(int d = 0; d < 3; ++d) { dd(X[d], [&](IB & b) { return d < D ? b.x[d] : 0; }); dd(V[d], [&](IB & b) { return d < D ? b.v[d] : 0; }); }
    dd("m", [](IB & b) { return b.m; }); dd("rho", [](IB & b) { return b.rho; }); dd("h", [](IB & b) { return b.h; }); dd("P", [](IB & b) { return b.P; }); dd("u", [](IB & b) { return b.u; }); dd("dt", [](IB & b) { return b.dt; });
    vector<long> id; vector<int> ty, sa;
    for(auto & b : want) id.push_back(b.id), ty.push_back(b.type), sa.push_back(b.state);
    st->child["id"] = h5::dset_l(id); st->child["type"] = h5::dset_i(ty); st->child["state"] = h5::dset_i(sa);
    auto it = h5::dset_l({first}), tm = h5::dset_d({2.5});
    it->kind = tm->kind = 'a';
    st->attr["iteration"] = it; st->attr["time"] = tm;
    auto drop = [&](const string & n) {
      st->child.erase(n);
      for(size_t i = 0; i < want.size(); ++i) {
        auto & b = want[i];
        if(n == "id") b.id = i + 1; if(n == "type") b.type = 0; if(n == "state") b.state = 0;
        if(n == "m") b.m = 0; if(n == "rho") b.rho = 0; if(n == "h") b.h = 0; if(n == "P") b.P = 0; if(n == "u") b.u = 0; if(n == "dt") b.dt = 0;
        for(int d = 0; d < 3; ++d) { if(n == X[d]) b.x[d] = 0; if(n == V[d]) b.v[d] = 0; }
      }
    };
    if(miss == 14) drop("id"), drop("type"), drop("state"); else if(miss >= 0) drop(COLS[miss]);
    root->child["Step#0"] = st;
    h5::save("in.h5part", root);
    h5::freeze("store.bin");
    vector<LRes> res; string err;
    Life R{rd, false, "in", "other", first, true};
    End e = job(c, R, res, err);
    if(!c.check(e == DONE, string("reading ") + END[e], err)) continue;
    checked(c, want, rd, res, "columns left out");
    for(auto & r : res) c.check(r.dt == R.initial_dt && (!first || r.time == 2.5), "time", fmt("%g %g", r.time, r.dt));
    c.outcome(mix(mix(N, rd), miss));
  }
#endif
}
int main(int argc, char ** argv) { return mc::main_run(argc, argv, enumerate); }
