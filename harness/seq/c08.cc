// Space-filling curves: every cell of bounded depths, and every cell of blocks at full depth.
#include "mc.h"
#include "filling_curve.h"
#include <algorithm>
using namespace flecsi;
template<class C> struct is_hilbert : std::false_type {};
template<size_t D, class T> struct is_hilbert<hilbert_curve_u<D, T>> : std::true_type {};
using u64 = uint64_t;

template<class C, size_t D> struct Test {
  using P = space_vector_u<double, D>;
  using R = std::array<P, 2>;
  static constexpr bool H = is_hilbert<C>::value;
  const char * nm;
  static R rng(int v) {
    static const double lo[5][3] = {{0, 0, 0}, {-1, -1, -1}, {-4, 2, 0.5}, {-0.3, 0.1, 7}, {-1e3, 1e-3, -2}};
    static const double w[5][3] = {{1, 1, 1}, {2, 2, 2}, {16, 0.5, 8}, {1.7, 0.3, 5}, {3e3, 7e-3, 4.1}};
    R r;
    for(size_t i = 0; i < D; ++i) { r[0][i] = lo[v][i]; r[1][i] = lo[v][i] + w[v][i]; }
    return r;
  }
  static bool dyadic(int v) { return v < 3; }
  static P at(const R & r, const std::array<u64, D> & c, int m, double f) {
    P p;
    for(size_t i = 0; i < D; ++i) p[i] = r[0][i] + (r[1][i] - r[0][i]) * std::ldexp((double)c[i] + f, -m);
    return p;
  }
  // box a key denotes in the Morton curve
  static std::string cs(const std::array<u64, D> & c) { std::string s; for(auto x : c) s += std::to_string(x) + " "; return s; }
  void shallow(mc::Ctx & c, int v, int m) {
    R r = rng(v);
    u64 n = u64(1) << (D * m);
    std::vector<u64> keyof(n);
    std::vector<std::pair<u64, std::array<u64, D>>> all;
    std::vector<bool> used(n, false);
    for(u64 i = 0; i < n; ++i) {
      std::array<u64, D> cell;
      for(size_t d = 0; d < D; ++d) cell[d] = (i >> (d * m)) & ((u64(1) << m) - 1);
      P ctr = at(r, cell, m, 0.5);
      C k(r, ctr, m), full(r, ctr);
      u64 kv = (u64)k.value();
      if(!c.check((int)k.depth() == m && kv >= n && kv < 2 * n, "depth", mc::fmt("cell %s: key %llo is not of depth %d", cs(cell).c_str(), (unsigned long long)kv, m))) return;
      if(!c.check(!used[kv - n], "not-injective", mc::fmt("cell %s: key %llo already used", cs(cell).c_str(), (unsigned long long)kv))) return;
      used[kv - n] = true;
      C t = full;
      if(!c.check((int)full.depth() == (int)C::max_depth(), "full-depth", "key without depth argument is not of maximum depth")) return;
      t.truncate(m);
      if(!c.check(t == k, "truncation", mc::fmt("cell %s: truncated full key %llo, key of the cell %llo", cs(cell).c_str(), (unsigned long long)t.value(), (unsigned long long)kv))) return;
      C q = full;
      q.pop((size_t)(C::max_depth() - m));
      if(!c.check(q == k, "pop", "popping a full key does not give the key of the enclosing cell")) return;
      if(dyadic(v)) for(double f : {0., 0.25, 0.75, 0.9990234375}) {
        C o(r, at(r, cell, m, f), m);
        if(!c.check(o == k, "within-cell", mc::fmt("cell %s: point at %g of the cell has key %llo, centre %llo", cs(cell).c_str(), f, (unsigned long long)o.value(), (unsigned long long)kv))) return;
      }
      if constexpr (!H) {
        // order of Morton keys is the order of interleaved coordinates
        P back;
        k.coordinates(r, back);
        for(size_t d = 0; d < D; ++d) {
          double lo = at(r, cell, m, 0)[d], hi = at(r, cell, m, 1)[d], tol = 1e-9 * (r[1][d] - r[0][d]);
          if(!c.check(back[d] >= lo - tol && back[d] <= hi + tol, "inverse", mc::fmt("cell %s: key converts back to %g on axis %zu, cell is [%g,%g]", cs(cell).c_str(), back[d], d, lo, hi))) return;
        }
        auto bx = k.range(r);
        for(size_t d = 0; d < D; ++d) {
          double lo = at(r, cell, m, 0)[d], hi = at(r, cell, m, 1)[d], tol = 1e-12 * (std::abs(r[1][d]) + std::abs(r[0][d]));
          if(!c.check(std::abs(bx[0][d] - lo) <= tol && std::abs(bx[1][d] - hi) <= tol, "box", mc::fmt("cell %s: range() gives [%g,%g] on axis %zu, cell is [%g,%g]", cs(cell).c_str(), bx[0][d], bx[1][d], d, lo, hi))) return;
        }
      }
      if constexpr (H && D >= 2) {
        P back;
        full.coordinates(r, back);
        for(size_t d = 0; d < D; ++d) {
          double ct = ctr[d], w = (r[1][d] - r[0][d]);
          if(!c.check(std::abs(back[d] - ct) <= w * std::ldexp(1.01, -(int)std::min<size_t>(C::max_depth(), 48)), "inverse", mc::fmt("cell %s: full key converts back to %.17g on axis %zu, point was %.17g", cs(cell).c_str(), back[d], d, ct))) return;
        }
      }
      if(H) all.push_back({kv, cell});
      c.steps(1);
    }
    if(H) {
      std::sort(all.begin(), all.end());
      for(size_t i = 1; i < all.size(); ++i) {
        u64 dist = 0;
        for(size_t d = 0; d < D; ++d) dist += all[i].second[d] > all[i - 1].second[d] ? all[i].second[d] - all[i - 1].second[d] : all[i - 1].second[d] - all[i].second[d];
        if(!c.check(dist == 1, "adjacency", mc::fmt("keys %llo and %llo follow each other but cells %s and %s do not touch", (unsigned long long)all[i - 1].first, (unsigned long long)all[i].first, cs(all[i - 1].second).c_str(), cs(all[i].second).c_str()))) return;
      }
    }
    u64 h = 7;
    for(auto & a : all) h = mc::mix(h, a.first ^ a.second[0] * 31);
    c.outcome(mc::mix(h, n * 5 + v + H));
    // edges of the domain
    for(u64 i = 0; i < n && m <= 3; ++i) {
      std::array<u64, D> cell;
      bool edge = false;
      for(size_t d = 0; d < D; ++d) { cell[d] = (i >> (d * m)) & ((u64(1) << m) - 1); edge |= cell[d] == (u64(1) << m) - 1; }
      if(!edge) continue;
      P p = at(r, cell, m, 0.5);
      C want(r, p, m);
      for(double over : {0., 0.125}) {
        for(size_t d = 0; d < D; ++d) if(cell[d] == (u64(1) << m) - 1) p[d] = r[1][d] + over * (r[1][d] - r[0][d]);
        C k(r, p, m);
        if(!c.check(k == want, "edge", mc::fmt("point on the upper edge of cell %s (%g beyond) has key %llo, the cell's is %llo", cs(cell).c_str(), over, (unsigned long long)k.value(), (unsigned long long)want.value()))) return;
      }
    }
    C a(r, r[0], m);
    std::array<u64, D> z{};
    if(!c.check(a == C(r, at(r, z, m, 0.5), m), "edge", "lower corner of the domain is not in the first cell")) return;
  }
  // all cells of a 2^b block at precision m (<= max depth), aligned at a pattern of positions
  void deep(mc::Ctx & c, int v, int m, int b, int pat) {
    R r = rng(v);
    u64 side = u64(1) << b, top = (u64(1) << (m - b)) - 1;
    std::array<u64, D> base;
    for(size_t d = 0; d < D; ++d) {
      u64 q[6] = {0, top, top / 2, top / 2 + 1, 0x5555555555555555ull & top, (0x123456789abcdefull * (d + 1)) & top};
      base[d] = q[(pat / (d == 0 ? 1 : d == 1 ? 6 : 36)) % 6] * side;
    }
    u64 n = u64(1) << (D * b);
    std::vector<std::pair<u64, std::array<u64, D>>> all;
    for(u64 i = 0; i < n; ++i) {
      std::array<u64, D> cell;
      for(size_t d = 0; d < D; ++d) cell[d] = base[d] + ((i >> (d * b)) & (side - 1));
      P p = at(r, cell, m, 0.5);
      C k(r, p, m), full(r, p);
      all.push_back({(u64)k.value(), cell});
      C t = full;
      t.truncate(m);
      if(!c.check(t == k && (int)k.depth() == m, "truncation", mc::fmt("cell %s depth %d: truncated full key differs from the key of the cell", cs(cell).c_str(), m))) return;
      if constexpr (!H) {
        P back;
        k.coordinates(r, back);
        for(size_t d = 0; d < D; ++d) {
          double w = std::ldexp(r[1][d] - r[0][d], -m), lo = at(r, cell, m, 0)[d];
          double tol = (r[1][d] - r[0][d]) * 1e-14;
          if(!c.check(back[d] >= lo - tol && back[d] <= lo + w * (1 + 1e-9) + tol, "inverse", mc::fmt("cell %s depth %d: key converts back to %.17g on axis %zu, cell starts at %.17g", cs(cell).c_str(), m, back[d], d, lo))) return;
          // and back again
        }
        if(m <= 40 && m < (int)C::max_depth() && dyadic(v)) { C again(r, back, m); if(!c.check(again == k, "inverse", mc::fmt("cell %s depth %d: coordinates of the key lie in another cell", cs(cell).c_str(), m))) return; }
      }
      if constexpr (H && D >= 2) {
        P back;
        full.coordinates(r, back);
        for(size_t d = 0; d < D; ++d) {
          double w = r[1][d] - r[0][d];
          if(!c.check(std::abs(back[d] - p[d]) <= w * std::ldexp(1.01, -(int)std::min<size_t>(C::max_depth(), 46)), "inverse", mc::fmt("cell %s: full key converts back to %.17g on axis %zu, point was %.17g", cs(cell).c_str(), back[d], d, p[d]))) return;
        }
      }
      c.steps(1);
    }
    std::sort(all.begin(), all.end());
    u64 h = 3;
    for(size_t i = 0; i < all.size(); ++i) {
      h = mc::mix(h, all[i].first);
      if(!i) { if(!c.check(all[0].first % n == 0, "block", "keys of an aligned block do not start at a multiple of its size")) return; continue; }
      if(!c.check(all[i].first == all[i - 1].first + 1, "block", mc::fmt("keys of an aligned block are not consecutive: %llo then %llo", (unsigned long long)all[i - 1].first, (unsigned long long)all[i].first))) return;
      if(H) {
        u64 dist = 0;
        for(size_t d = 0; d < D; ++d) dist += all[i].second[d] > all[i - 1].second[d] ? all[i].second[d] - all[i - 1].second[d] : all[i - 1].second[d] - all[i].second[d];
        if(!c.check(dist == 1, "adjacency", mc::fmt("consecutive keys at depth %d belong to cells %s and %s", m, cs(all[i - 1].second).c_str(), cs(all[i].second).c_str()))) return;
      }
    }
    c.outcome(h);
  }
  void run(mc::Ctx & c) {
    int md = (int)C::max_depth();
    int lim = (c.thorough ? 18 : 14) / (int)D;
    for(int v = 0; v < 5; ++v) for(int m = 0; m <= std::min(lim, md); ++m) {
      if(m == 0) continue;
      if(c.want([&] { return mc::fmt("%s D=%zu bits=%zu domain %d: all cells of depth %d", nm, D, sizeof(typename C::type) * 8, v, m); })) { c.exec(); shallow(c, v, m); }
    }
    int np = D == 1 ? 6 : D == 2 ? 36 : 216;
    for(int v = 0; v < 3; ++v) for(int m = lim + 1; m <= std::min(md, 46); ++m) {
      int b = std::min(m, D == 1 ? (c.thorough ? 8 : 6) : D == 2 ? (c.thorough ? 4 : 3) : (c.thorough ? 3 : 2));
      if(!c.thorough && m != md && m != std::min(md, 46) && m % 4) continue;
      for(int pat = 0; pat < np; ++pat) {
        if(!c.thorough && D == 3 && (pat + m) % 3) continue;
        if(c.want([&] { return mc::fmt("%s D=%zu bits=%zu domain %d: block %d at depth %d pattern %d", nm, D, sizeof(typename C::type) * 8, v, b, m, pat); })) { c.exec(); deep(c, v, m, b, pat); }
      }
    }
  }
};
static void enumerate(mc::Ctx & c) {
  Test<morton_curve_u<1, uint64_t>, 1>{"morton"}.run(c);
  Test<morton_curve_u<2, uint64_t>, 2>{"morton"}.run(c);
  Test<morton_curve_u<3, uint64_t>, 3>{"morton"}.run(c);
  Test<hilbert_curve_u<1, uint64_t>, 1>{"hilbert"}.run(c);
  Test<hilbert_curve_u<2, uint64_t>, 2>{"hilbert"}.run(c);
  Test<hilbert_curve_u<3, uint64_t>, 3>{"hilbert"}.run(c);
  Test<morton_curve_u<1, uint32_t>, 1>{"morton"}.run(c);
  Test<morton_curve_u<2, uint32_t>, 2>{"morton"}.run(c);
  Test<morton_curve_u<3, uint32_t>, 3>{"morton"}.run(c);
  Test<hilbert_curve_u<1, uint32_t>, 1>{"hilbert"}.run(c);
  Test<hilbert_curve_u<2, uint32_t>, 2>{"hilbert"}.run(c);
  Test<hilbert_curve_u<3, uint32_t>, 3>{"hilbert"}.run(c);
}
int main(int a, char ** v) { return mc::main_run(a, v, enumerate, 1); }
