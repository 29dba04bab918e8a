// Key algebra against digit lists: every path of bounded length hung below every
// prefix of a set of shallow and deep prefixes, and every pair of them.
#include "mc.h"
#include "filling_curve.h"
using namespace flecsi;
using u64 = uint64_t;
using Path = std::vector<int>;
template<class C, size_t D> struct Test {
  const char * nm;
  using T = typename C::type;
  static std::string ps(const Path & p) { std::string s; for(int d : p) s += char('0' + d); return s; }
  static C build(const Path & p) { C k = C::root(); for(int d : p) k.push((T)d); return k; }
  static u64 ref(const Path & p) { unsigned __int128 v = 1; for(int d : p) v = (v << D) | (unsigned)d; return (u64)v; }
  bool same(mc::Ctx & c, const C & k, const Path & p, const char * what) {
    return c.check(!k.is_null() && (u64)k.value() == ref(p) && k.depth() == p.size(), what, mc::fmt("%s: path %s, key value %llo depth %zu", what, ps(p).c_str(), (unsigned long long)k.value(), k.depth()));
  }
  void one(mc::Ctx & c, const Path & p) {
    C k = build(p);
    if(!same(c, k, p, "push")) return;
    c.outcome(mc::mix(ref(p), D + 8 * sizeof(T)));
    int md = (int)C::max_depth();
    for(int d = 0; d < (1 << D); ++d) if((int)p.size() < md) {
      C q = k;
      q.push((T)d);
      c.check(q.last_value() == d, "last", mc::fmt("path %s + %d: last digit %d", ps(p).c_str(), d, q.last_value()));
      C r = q;
      r.pop();
      same(c, r, p, "push-pop");
      r = q;
      int g = r.pop_value();
      c.check(g == d, "pop-value", mc::fmt("path %s + %d: popped %d", ps(p).c_str(), d, g));
      same(c, r, p, "push-pop-value");
      C par(q.parent().value());
      same(c, par, p, "parent");
      c.check(q != k && !(q == k) && q > k && k < q, "child-differs", "a child equals its parent or sorts below it");
      c.steps(4);
    }
    for(size_t t = 0; t <= p.size() + 2; ++t) {
      C q = k;
      q.truncate(t);
      Path a(p.begin(), p.begin() + std::min(t, p.size()));
      same(c, q, a, "truncate");
      if(t <= p.size()) { C r = k; r.pop(p.size() - t); same(c, r, a, "pop-n"); }
      c.steps(2);
    }
    C copy(k), asg;
    asg = k;
    same(c, copy, p, "copy");
    same(c, asg, p, "assign");
    c.check((T)k == k.value(), "value", "conversion to the integer differs from value()");
    std::ostringstream o;
    o << k;
    c.check(o.str() == "1" + ps(p), "print", "printed as " + o.str() + " instead of 1" + ps(p));
    if((int)p.size() == md) c.check(k >= C::min() && k <= C::max(), "min-max", "full-depth key outside [min,max]");
  }
  void pairs(mc::Ctx & c, const std::vector<Path> & v) {
    std::vector<C> k;
    for(auto & p : v) k.push_back(build(p));
    for(size_t i = 0; i < v.size(); ++i) for(size_t j = 0; j < v.size(); ++j) {
      bool eq = v[i] == v[j];
      if(!c.check((k[i] == k[j]) == eq && (k[i] != k[j]) != eq, "equality", mc::fmt("paths %s and %s", ps(v[i]).c_str(), ps(v[j]).c_str()))) return;
      if(v[i].size() == v[j].size()) {
        bool lt = v[i] < v[j];
        if(!c.check((k[i] < k[j]) == lt && (k[j] > k[i]) == lt && (k[i] >= k[j]) == !lt && (k[j] <= k[i]) == !lt, "order", mc::fmt("paths %s and %s order differently as keys", ps(v[i]).c_str(), ps(v[j]).c_str()))) return;
        if((int)v[i].size() == (int)C::max_depth()) {
          int a = 0;
          while(a < (int)v[i].size() && v[i][a] == v[j][a]) ++a;
          C x;
          if(!c.check(x.conflict_depth(k[i], k[j]) == a, "conflict", mc::fmt("paths %s and %s agree to depth %d, conflict_depth says %d", ps(v[i]).c_str(), ps(v[j]).c_str(), a, x.conflict_depth(k[i], k[j])))) return;
        }
      }
      c.steps(1);
    }
  }
  void run(mc::Ctx & c) {
    int md = (int)C::max_depth();
    int L = (c.thorough ? 12 : 9) / (int)D;
    std::vector<Path> pre;
    std::set<int> lens = {0, 1, 2, md / 2, md - L - 1, md - L, 32 / (int)D, 31 / (int)D, 33 / (int)D, 22 / (int)D};
    for(int l : lens) {
      if(l < 0 || l > md) continue;
      for(int pat = 0; pat < 4; ++pat) {
        Path p;
        for(int i = 0; i < l; ++i) p.push_back(pat == 0 ? 0 : pat == 1 ? (1 << D) - 1 : pat == 2 ? i % (1 << D) : (i * 5 + 3) % (1 << D));
        pre.push_back(p);
        if(!l) break;
      }
    }
    if(c.want([&] { return mc::fmt("%s D=%zu bits=%zu: root, min, max, null", nm, D, sizeof(T) * 8); })) {
      c.exec();
      same(c, C::root(), Path(), "root");
      same(c, C::min(), Path(md, 0), "min");
      same(c, C::max(), Path(md, (1 << D) - 1), "max");
      C n;
      c.check(n.is_null() && C::null().is_null() && n == C::null() && n != C::root(), "null", "default key is not null");
      c.check(md == (int)((sizeof(T) * 8 - 1) / D), "max-depth", mc::fmt("maximum depth %d", md));
    }
    for(auto & b : pre) for(int l = 0; l <= L && (int)b.size() + l <= md; ++l) {
      if(c.want([&] { return mc::fmt("%s D=%zu bits=%zu: all paths of %d digits below 1%s", nm, D, sizeof(T) * 8, l, ps(b).c_str()); })) {
        c.exec();
        std::vector<Path> all;
        u64 n = u64(1) << (D * l);
        for(u64 i = 0; i < n; ++i) {
          Path p = b;
          for(int k = l - 1; k >= 0; --k) p.push_back((int)(i >> (D * k)) & ((1 << D) - 1));
          one(c, p);
          if(n <= 512) all.push_back(p);
        }
        if(n <= 512) {
          // together with their ancestors
          for(size_t k = 0; k < b.size(); ++k) all.push_back(Path(b.begin(), b.begin() + k));
          pairs(c, all);
        }
      }
    }
    if(c.want([&] { return mc::fmt("%s D=%zu bits=%zu: prefixes against each other", nm, D, sizeof(T) * 8); })) {
      c.exec();
      std::vector<Path> all = pre;
      for(auto & b : pre) { Path p = b; while((int)p.size() < md) p.push_back((int)(p.size() * 3 + b.size()) % (1 << D)); all.push_back(p); p.back() ^= 1; all.push_back(p); p[p.size() / 2] ^= 1; all.push_back(p); }
      pairs(c, all);
    }
  }
};
static void enumerate(mc::Ctx & c) {
  Test<morton_curve_u<1, uint64_t>, 1>{"morton"}.run(c);
  Test<morton_curve_u<2, uint64_t>, 2>{"morton"}.run(c);
  Test<morton_curve_u<3, uint64_t>, 3>{"morton"}.run(c);
  Test<hilbert_curve_u<1, uint64_t>, 1>{"hilbert"}.run(c);
  Test<hilbert_curve_u<2, uint64_t>, 2>{"hilbert"}.run(c);
  Test<hilbert_curve_u<3, uint64_t>, 3>{"hilbert"}.run(c);
  Test<morton_curve_u<1, uint32_t>, 1>{"morton"}.run(c);
  Test<morton_curve_u<2, uint32_t>, 2>{"morton"}.run(c);
  Test<morton_curve_u<3, uint32_t>, 3>{"morton"}.run(c);
}
int main(int a, char ** v) { return mc::main_run(a, v, enumerate, 1); }
