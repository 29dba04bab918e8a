// Histories of runs that write a series of snapshots, stop and are continued.
#include "life.h"
#include <dlfcn.h>
// the directory is listed in a chosen order
static int dir_order = 0;
namespace { struct Listing { vector<struct dirent> e; size_t at = 0; }; }
static std::map<DIR *, Listing> listings;
extern "C" struct dirent * readdir(DIR * d) {
  static auto real = (struct dirent * (*)(DIR *))dlsym(RTLD_NEXT, "readdir");
  if(!listings.count(d)) {
    auto & l = listings[d];
    while(auto e = real(d)) l.e.push_back(*e);
    std::sort(l.e.begin(), l.e.end(), [](auto & a, auto & b) { return strcmp(a.d_name, b.d_name) < 0; });
    if(dir_order == 1) std::reverse(l.e.begin(), l.e.end());
    if(dir_order >= 2 && l.e.size()) std::rotate(l.e.begin(), l.e.begin() + (dir_order * l.e.size() / 3) % l.e.size(), l.e.end());
  }
  auto & l = listings[d];
  return l.at < l.e.size() ? &l.e[l.at++] : nullptr;
}
extern "C" struct dirent64 * readdir64(DIR * d) { return (struct dirent64 *)readdir(d); }
extern "C" int closedir(DIR * d) { static auto real = (int (*)(DIR *))dlsym(RTLD_NEXT, "closedir"); listings.erase(d); return real(d); }
static const int N = 3;
struct Shot { int iter, salt; }; // salt < 0: the initial file
typedef vector<Shot> Series;
static double field(const Shot & s, long i, int f) { return s.salt < 0 ? i * 4 + f * .125 + 1 : run_value(s.salt, s.iter, i, f); }
static std::shared_ptr<h5::Obj> attr_l(long v) { auto o = h5::dset_l({v}); o->kind = 'a'; return o; }
static std::shared_ptr<h5::Obj> attr_d(double v) { auto o = h5::dset_d({v}); o->kind = 'a'; return o; }
static std::shared_ptr<h5::Obj> snapshot(const Shot & s) {
  auto st = std::make_shared<h5::Obj>();
  vector<long> id; vector<double> one(N, 1);
  for(int i = 0; i < N; ++i) id.push_back(i);
  auto dd = [&](const char * n, int f) { vector<double> v; for(int i = 0; i < N; ++i) v.push_back(f < 0 ? 0 : field(s, i, f)); st->child[n] = h5::dset_d(v); };
  const char *X[] = {"x", "y", "z"}, *V[] = {"vx", "vy", "vz"};
  for(int d = 0; d < 3; ++d) dd(X[d], d < D ? d : -1), dd(V[d], d < D ? 3 + d : -1);
  dd("rho", 6); dd("P", 7); dd("u", 8);
  st->child["m"] = h5::dset_d(one); st->child["h"] = h5::dset_d(one); st->child["id"] = h5::dset_l(id);
  st->attr["iteration"] = attr_l(s.iter); st->attr["time"] = attr_d(s.salt < 0 ? 0 : run_time(s.iter)); st->attr["timestep"] = attr_d(s.salt < 0 ? .125 : run_dt(s.iter));
  return st;
}
static void place(const string & f, int step, const Shot & s) { auto r = std::make_shared<h5::Obj>(); r->child["Step#" + std::to_string(step)] = snapshot(s); h5::save(f, r); }
static bool holds(std::shared_ptr<h5::Obj> st, const Shot & s, string & why) {
  if(!st->attr.count("iteration") || *(long *)st->attr["iteration"]->data.data() != s.iter) { why = "iteration"; return false; }
  if(s.salt >= 0 && (!st->attr.count("time") || *(double *)st->attr["time"]->data.data() != run_time(s.iter) || !st->attr.count("timestep") || *(double *)st->attr["timestep"]->data.data() != run_dt(s.iter))) { why = "time"; return false; }
  auto col = [&](const char * n, int f) { if(!st->child.count(n)) return false; auto v = h5::as_d(st->child[n]); if(v.size() != N) return false; for(int i = 0; i < N; ++i) if(v[i] != field(s, i, f)) return false; return true; };
  const char *X[] = {"x", "y", "z"}, *V[] = {"vx", "vy", "vz"};
  for(int d = 0; d < D; ++d) { if(!col(X[d], d)) { why = X[d]; return false; } if(!col(V[d], 3 + d)) { why = V[d]; return false; } }
  for(auto p : {std::make_pair("rho", 6), std::make_pair("P", 7), std::make_pair("u", 8)}) if(!col(p.first, p.second)) { why = p.first; return false; }
  return true;
}
static string name(const string & p, int k) { return fmt("%s_%05d.h5part", p.c_str(), k); }
static string str(const Series & s) { string r; for(auto & x : s) r += fmt("%d(%c) ", x.iter, 'A' + x.salt); return r.empty() ? "none" : r; }
struct Leg { int from; string in, out; int every, last; }; // from 0 and in "in": a new run
struct World {
  Ctx & c; bool sep; int ord; std::map<string, Series> series; std::map<string, Shot> decoys; string hist;
  int salt = 0;
  std::map<string, int> torn; // iteration of an unfinished snapshot at the end
  void start(const vector<string> & pre) {
    clear_dir("."); clear_dir("sub"); clear_dir("sub/deeper"); unlink("store.bin"); h5::reset();
    { auto r = std::make_shared<h5::Obj>(); r->child["Step#0"] = snapshot({0, -1}); h5::save("in.h5part", r); }
    for(auto & p : pre) for(auto s : {p + "2_00001.h5part", p + "_0001.h5part", p + "_00001.h5part.bak", p + "_000001.h5part", p + "00001.h5part"}) if(p.size() < 100) decoys[s] = {4, 7};
    auto b = [](const string & p) { auto i = p.rfind('/'); return i == p.npos ? p : p.substr(i + 1); };
    for(auto & p : pre) if(p.find('/') != p.npos && p.compare(0, 2, "./")) { if(std::count(pre.begin(), pre.end(), b(p)) == 0) decoys[name(b(p), 3)] = {4, 6}, decoys[name(b(p), 0)] = {2, 6}; } // same names elsewhere
    for(auto & p : pre) { string d = p; d.insert(p.rfind('/') == p.npos ? 0 : p.rfind('/') + 1, "my_"); if(p.size() < 100) decoys[name(d, 2)] = {4, 5}; }
    for(auto & d : decoys) place(d.first, 1, d.second);
    h5::freeze("store.bin");
  }
  string known(const string & p) const { auto s = series.find(p); return s == series.end() ? "none" : str(s->second); }
  void verify(const char * when) {
    h5::thaw("store.bin");
    string w = hist + when + ": ";
    for(auto & s : series) {
      auto & p = s.first;
      bool tn = torn.count(p);
      if(sep) {
        for(size_t k = 0; k < s.second.size(); ++k) {
          auto r = h5::load(name(p, k)); string why;
          if(!c.check(!!r, "snapshot lost", w + fmt("%s (iteration %d) is missing; expected series %s", name(p, k).c_str(), s.second[k].iter, str(s.second).c_str()))) return;
          auto sn = "Step#" + std::to_string(k);
          if(!c.check(r->child.count(sn) && holds(r->child[sn], s.second[k], why), "snapshot wrong", w + fmt("%s does not hold iteration %d (%s); expected series %s", name(p, k).c_str(), s.second[k].iter, why.c_str(), str(s.second).c_str()))) return;
        }
        for(int k = s.second.size() + tn; k < 16; ++k) if(!c.check(access(name(p, k).c_str(), F_OK), "snapshot too many", w + fmt("%s exists; expected series %s", name(p, k).c_str(), str(s.second).c_str()))) return;
      }
      else {
        auto r = h5::load(p + ".h5part");
        if(s.second.empty() && !r) continue;
        if(!c.check(!!r, "file lost", w + p)) return;
        for(size_t k = 0; k < s.second.size(); ++k) {
          string why; auto sn = "Step#" + std::to_string(k);
          if(!c.check(r->child.count(sn), "snapshot lost", w + fmt("step %zu (iteration %d) of %s is missing; expected series %s", k, s.second[k].iter, p.c_str(), str(s.second).c_str()))) return;
          if(!c.check(holds(r->child[sn], s.second[k], why), "snapshot wrong", w + fmt("step %zu of %s does not hold iteration %d (%s); expected series %s", k, p.c_str(), s.second[k].iter, why.c_str(), str(s.second).c_str()))) return;
        }
        c.check(r->child.size() <= s.second.size() + tn, "snapshot too many", w + fmt("%zu steps in %s; expected series %s", r->child.size(), p.c_str(), str(s.second).c_str()));
      }
    }
    for(auto & d : decoys) { auto r = h5::load(d.first); string why; c.check(r && r->child.size() == 1 && r->child.count("Step#1") && holds(r->child["Step#1"], d.second, why), "other file", w + d.first + " was touched"); }
    auto r = h5::load("in.h5part"); string why;
    c.check(r && r->child.size() == 1 && holds(r->child["Step#0"], {0, -1}, why), "initial file", w + "in.h5part was touched");
  }
  // returns false when the history cannot go on
  bool run(const Leg & g, int np, long kill = -1, long * changes = nullptr) {
    Life L{np, sep, g.in, g.out, g.from, true};
    L.last = g.last; L.every = g.every; L.salt = salt;
    bool fresh = g.in == "in";
    Shot got{0, -1};
    size_t at = 0;
    bool refuse = false, may = false;
    if(!fresh) {
      auto & s = series[g.in]; // none: nothing was written there
      for(at = 0; at < s.size(); ++at) if(s[at].iter == g.from) break;
      if(at == s.size()) refuse = true;
      else { got = s[at]; if(!sep && g.in == g.out && at + 1 != s.size()) refuse = true; }
      if(torn.count(g.in)) { if(torn[g.in] == g.from) return false; may = true; } // an unfinished file may be refused
    }
    vector<LRes> res; string err;
    dir_order = ord;
    hist += fmt("[%s from %d to %s every %d until %d on %d%s] ", g.in.size() > 60 ? "(long)" : g.in.c_str(), g.from, g.out.size() > 60 ? "(long)" : g.out.c_str(), g.every, g.last, np, kill >= 0 ? fmt(" killed before change %ld", kill).c_str() : "");
    End e = life(c, L, plan(np, salt), res, err, kill, changes);
    if(kill >= 0 && e == KILLED) {
      Series & o = series[g.out];
      if(!fresh && g.in == g.out) o.resize(at + 1); else o.clear();
      torn.erase(g.out);
      // how many of the due snapshots were finished is told by the number of changes of the complete run
      Series due;
      for(int k = g.from; k <= g.last; ++k) if(k % g.every == 0 && !(!fresh && g.in == g.out && k == g.from)) due.push_back({k, k == g.from && !fresh ? got.salt : salt});
      h5::thaw("store.bin");
      size_t b = o.size();
      for(auto & d : due) {
        // complete: the following one was begun, or this one passes
        string why; auto k = o.size();
        auto r = sep ? h5::load(name(g.out, k)) : h5::load(g.out + ".h5part");
        auto sn = "Step#" + std::to_string(k);
        bool all = r && r->child.count(sn) && holds(r->child[sn], d, why);
        for(auto x : {"neighbors", "rank", "state"}) all = all && r->child[sn]->child.count(x); // the last columns
        if(!all) { if(r && (sep || r->child.count(sn))) torn[g.out] = d.iter; break; }
        o.push_back(d);
      }
      if(!o.empty() && o.size() > b && !torn.count(g.out)) { torn[g.out] = o.back().iter; o.pop_back(); } // perhaps unfinished
      else if(o.size() > b && torn.count(g.out)) {}
      ++salt;
      verify(" after the kill");
      return true;
    }
    if(!c.check(e == DONE || e == REFUSED, string("run ") + END[e], hist + err)) return false;
    if(e == REFUSED) {
      c.check(refuse || may, "refused", hist + "expected series " + known(g.in) + err);
      c.check(err.find_first_not_of(" \n\t") != err.npos, "refused silently", hist);
      if(!refuse && !sep) torn.erase("");
      verify(" after the refusal");
      return refuse && !may;
    }
    if(!c.check(!refuse, "not refused", hist + fmt("loaded particle at %g; series %s", res[0].b.empty() ? -1 : res[0].b[0].x[0], known(g.in).c_str()))) return false;
    // what was loaded
    long i = 0;
    for(auto & r : res) {
      for(auto & b : r.b) {
        bool ok = b.id == i && b.rho == field(got, i, 6) && b.P == field(got, i, 7) && b.u == field(got, i, 8);
        for(int d = 0; d < D; ++d) ok &= b.x[d] == field(got, i, d) && b.v[d] == field(got, i, 3 + d);
        c.check(ok, "loaded", hist + fmt("particle %ld has x %g rho %g, snapshot of iteration %d has x %g rho %g", i, b.x[0], b.rho, got.iter, field(got, i, 0), field(got, i, 6)));
        ++i;
      }
      if(!fresh) c.check(r.time == run_time(got.iter) && r.dt == run_dt(got.iter), "loaded time", hist + fmt("%g %g", r.time, r.dt));
    }
    c.check(i == N, "loaded number", hist + fmt("%ld", i));
    Series & o = series[g.out];
    bool same = !fresh && g.in == g.out;
    if(same) o.resize(at + 1); else o.clear();
    torn.erase(g.out);
    for(int k = g.from; k <= g.last; ++k) if(k % g.every == 0 && !(same && k == g.from)) o.push_back({k, k == g.from && !fresh ? got.salt : salt});
    ++salt;
    verify("");
    return true;
  }
};
static void enumerate(Ctx & c) {
  th::scratch();
  mkdir("sub", 0755);
  bool T = c.thorough;
  string lg = "sub/" + string(140, 'l'), lg2 = "sub/" + string(140, 'm');
  const vector<vector<string>> PR = {{"out", "new"}, {"sub/out", "sub/new"}, {"sub/out", "out"}, {lg, lg2}, {"./out", "sub/new"}};
  auto & Lb = th::RankLibs<io_entry_t>::get("io" + std::to_string(D), "io_entry");
  for(int i = 0; i < 4; ++i) Lb.fn[i];
  long cs = 0;
  vector<Leg> first, second, third;
  for(int e : {1, 2}) for(int l = 0; l < 5; ++l) if(e == 1 || l % 2 == 0 || l == 3) first.push_back({0, "in", "P", e, l});
  for(int k = 1; k <= 5; ++k) for(const char * o : {"P", "Q"}) for(int e : {1, 2, 3}) for(int l : {0, 1, 3}) second.push_back({k, "P", o, e, k + l});
  for(int e : {1, 2}) for(int l : {0, 2}) second.push_back({0, "in", "P", e, l});
  for(int k = 1; k <= 7; ++k) for(auto io : {std::make_pair("P", "P"), std::make_pair("P", "Q"), std::make_pair("Q", "P"), std::make_pair("Q", "Q")}) third.push_back({k, io.first, io.second, 1 + k % 2, k + 1 + k % 2});
  third.push_back({0, "in", "Q", 1, 1}); third.push_back({0, "in", "P", 2, 2});
  auto named = [](Leg g, const vector<string> & p) { for(auto * s : {&g.in, &g.out}) *s = *s == "P" ? p[0] : *s == "Q" ? p[1] : *s; return g; };
  auto desc = [](const Leg & g) { return fmt("[%s from %d to %s every %d until %d] ", g.in.c_str(), g.from, g.out.c_str(), g.every, g.last); };
  // histories of two and three runs
  for(int sep = 0; sep < 2; ++sep) for(auto & a : first) for(auto & b : second) for(int t = -1; t < (int)third.size(); ++t) {
    ++cs;
    if(t >= 0 && !T && cs % 47) continue;
    for(int pr = 0; pr < (int)PR.size(); ++pr) {
      if(!T && t < 0 && cs % 3 == 1) continue;
      if(t >= 0 ? pr != cs % 5 : !T && pr != cs % 5) continue;
      if(!c.want([&] { return string(sep ? "separate files " : "one file ") + fmt("prefixes %d order %d: ", pr, int(cs % 4)) + desc(a) + desc(b) + (t < 0 ? "" : desc(third[t])); })) continue;
      World w{c, (bool)sep, int(cs % 4)};
      w.start(PR[pr]);
      int np = cs % 3;
      bool go = w.run(named(a, PR[pr]), 1 + np);
      if(c.fails) continue;
      w.run(named(b, PR[pr]), 1 + (np + cs / 3) % 3);
      if(t >= 0) w.run(named(third[t], PR[pr]), 1 + (np + 1) % 3);
      uint64_t h = sep;
      for(auto & s : w.series) for(auto & x : s.second) h = mix(h, x.iter * 10 + x.salt);
      c.outcome(mix(h, pr));
    }
  }
  // the run (new or continued) is killed between any two changes of the file, then continued
  for(int sep = 0; sep < 2; ++sep) for(int cont = 0; cont < 2; ++cont) for(int np = 1; np <= 2; ++np) for(int kill = 0; kill < (cont ? 130 : 190) * np; ++kill) for(int k = 1; k <= 4; ++k) for(int oq = 0; oq < 2; ++oq) {
    ++cs;
    if(!T && (kill + k * 3 + oq) % 20) continue;
    if(!c.want([&] { return string(sep ? "separate files " : "one file ") + fmt("%s run on %d killed before change %d, then from iteration %d to %s", cont ? "continued" : "new", np, kill, k, oq ? "another" : "the same"); })) continue;
    World w{c, (bool)sep, int(cs % 4)};
    w.start(PR[cs % 3]);
    auto & P = PR[cs % 3];
    if(cont) { w.run({0, "in", P[0], 1, 1}, 1 + kill % 2); w.run({1, P[0], P[0], 1, 3}, np, kill); }
    else w.run({0, "in", P[0], 1, 4}, np, kill);
    if(c.fails) continue;
    w.run({k, P[0], P[oq], 1, k + 2}, 1 + k % 3);
    uint64_t h = sep + 5;
    for(auto & s : w.series) for(auto & x : s.second) h = mix(h, x.iter * 10 + x.salt);
    c.outcome(mix(h, kill));
  }
  // nothing to read
  for(int sep = 0; sep < 2; ++sep) for(int np = 1; np <= 3; ++np) for(int f = 0; f < 4; ++f) {
    if(!c.want([&] { return fmt("separate %d on %d: nothing to read, variant %d", sep, np, f); })) continue;
    World w{c, (bool)sep, 0};
    w.start(PR[0]);
    Life L{np, (bool)sep, f & 1 ? "empty" : "nowhere", "new", f & 2 ? 3 : 0, true};
    if(f & 1) { h5::save("empty.h5part", std::make_shared<h5::Obj>()); h5::freeze("store.bin"); }
    L.last = L.first + 1;
    vector<LRes> res; string err;
    End e = life(c, L, plan(np, 0), res, err);
    c.check(e == REFUSED, string("nothing to read: ") + END[e], err);
    c.check(err.find_first_not_of(" \n\t") != err.npos, "refused silently", "");
    c.check(access("nowhere.h5part", F_OK) != 0, "file created", "nowhere.h5part");
    w.verify("");
  }
}
int main(int argc, char ** argv) { return mc::main_run(argc, argv, enumerate); }
