// Geometric predicates on all small integer configurations, against exact integer arithmetic.
#include "mc.h"
#include "tree_geometry.h"
using namespace flecsi;
using namespace flecsi::topology;
template<size_t D> struct Test {
  using G = tree_geometry<double, D>;
  using P = space_vector_u<double, D>;
  using I = std::array<long, D>;
  double s, o; // scale and offset, exact
  P pt(const I & a) const { P p; for(size_t d = 0; d < D; ++d) p[d] = o + s * (double)a[d]; return p; }
  static long d2(const I & a, const I & b) { long r = 0; for(size_t d = 0; d < D; ++d) r += (a[d] - b[d]) * (a[d] - b[d]); return r; }
  static std::string S(const I & a) { std::string r = "("; for(auto x : a) r += std::to_string(x) + " "; return r + ")"; }
  static std::vector<I> grid(long lo, long hi) {
    std::vector<I> v;
    I a;
    a.fill(lo);
    while(true) { v.push_back(a); size_t d = 0; while(d < D && ++a[d] > hi) a[d++] = lo; if(d == D) break; }
    return v;
  }
  struct B { I lo, hi; };
  static std::vector<B> boxes(long lo, long hi) {
    std::vector<B> v;
    for(auto & a : grid(lo, hi)) for(auto & b : grid(lo, hi)) { bool k = true; for(size_t d = 0; d < D; ++d) k &= a[d] <= b[d]; if(k) v.push_back({a, b}); }
    return v;
  }
  // -1 must be false, 1 must be true, 0 either
  bool want(mc::Ctx & c, bool got, int w, const char * key, const std::string & m) { c.steps(1); return c.check(w == 0 || got == (w > 0), key, m + (got ? " says yes" : " says no")); }
  void points(mc::Ctx & c, const I & a, const std::vector<I> & g, long R) {
    uint64_t h = 1;
    for(auto & b : g) {
      long q = d2(a, b);
      P x = pt(a), y = pt(b);
      double ex = s * s * (double)q;
      if(!c.check(G::distance2(x, y) == ex && G::distance2(y, x) == ex, "distance2", S(a) + S(b) + mc::fmt(" gives %g, is %g", (double)G::distance2(x, y), ex))) return;
      c.check(std::abs(distance(x, y) - s * std::sqrt((double)q)) <= 1e-14 * s * (1 + std::sqrt((double)q)), "distance", S(a) + S(b));
      for(long r = 0; r <= R; ++r) {
        double rr = s * (double)r;
        bool in = q <= r * r;
        h = mc::mix(h, in);
        auto m = S(a) + S(b) + mc::fmt(" radius %ld", r);
        if(!want(c, G::within_distance2(x, y, rr), in ? 1 : -1, "within_distance2", m)) return;
        if(!want(c, G::within(x, y, rr), in ? 1 : -1, "within", m)) return;
        if(!want(c, G::within(y, x, rr), in ? 1 : -1, "within", m + " swapped")) return;
        for(long t = 0; t <= R; ++t) {
          double tt = s * (double)t;
          long mx = std::max(r, t);
          if(!want(c, G::within_square(x, y, rr, tt), q <= mx * mx ? 1 : -1, "within_square", m + mc::fmt(",%ld", t))) return;
          bool hit = q <= (r + t) * (r + t);
          if(!want(c, G::intersects_sphere_sphere(x, rr, y, tt), hit ? 1 : -1, "sphere_sphere", m + mc::fmt(",%ld", t))) return;
          if(!want(c, G::intersects_sphere_sphere(y, tt, x, rr), hit ? 1 : -1, "sphere_sphere", m + mc::fmt(",%ld swapped", t))) return;
          // acceptance: (r + t) < angle * distance, angle = k/4
          for(long k : {0, 1, 2, 3, 4, 8}) {
            long L = 16 * (r + t) * (r + t), Rr = k * k * q;
            int w = L < Rr ? 1 : L > Rr ? -1 : 0;
            if(!want(c, G::mac(x, rr, y, tt, k / 4.), w, "mac", m + mc::fmt(",%ld angle %g", t, k / 4.))) return;
          }
        }
      }
    }
    c.outcome(mc::mix(h, D));
  }
  void box_pairs(mc::Ctx & c, const B & a, const std::vector<B> & bs) {
    uint64_t h = 2;
    for(auto & b : bs) {
      bool hit = true;
      for(size_t d = 0; d < D; ++d) hit &= a.lo[d] <= b.hi[d] && b.lo[d] <= a.hi[d];
      h = mc::mix(h, hit);
      auto m = S(a.lo) + S(a.hi) + " with " + S(b.lo) + S(b.hi);
      if(!want(c, G::intersects_box_box(pt(a.lo), pt(a.hi), pt(b.lo), pt(b.hi)), hit ? 1 : -1, "box_box", m)) return;
      if(!want(c, G::intersects_box_box(pt(b.lo), pt(b.hi), pt(a.lo), pt(a.hi)), hit ? 1 : -1, "box_box", m + " swapped")) return;
    }
    c.outcome(mc::mix(h, D));
  }
  void box_points(mc::Ctx & c, const B & a, const std::vector<I> & g, long R) {
    uint64_t h = 3;
    for(auto & p : g) {
      long q = 0;
      bool in = true, edge = false;
      for(size_t d = 0; d < D; ++d) {
        long e = p[d] < a.lo[d] ? a.lo[d] - p[d] : p[d] > a.hi[d] ? p[d] - a.hi[d] : 0;
        q += e * e;
        in &= e == 0;
        edge |= p[d] == a.lo[d];
      }
      auto m = S(a.lo) + S(a.hi) + " point " + S(p);
      for(long r = 0; r <= R; ++r) {
        h = mc::mix(h, q <= r * r);
        if(!want(c, G::intersects_sphere_box(pt(a.lo), pt(a.hi), pt(p), s * (double)r), q <= r * r ? 1 : -1, "sphere_box", m + mc::fmt(" radius %ld", r))) return;
      }
      // the lower faces may belong to the neighbour cell
      if(!want(c, G::within_box(pt(a.lo), pt(a.hi), pt(p), 0.), !in ? -1 : edge ? 0 : 1, "within_box", m)) return;
      for(auto & z : {g.front(), g.back(), g[g.size() / 2]}) {
        long diag = d2(a.lo, a.hi), q2 = d2(z, p);
        for(long k : {0, 1, 2, 4, 8}) {
          long L = 16 * diag, Rr = k * k * q2;
          int w = L < Rr ? 1 : L > Rr ? -1 : 0;
          if(!want(c, G::box_MAC(pt(z), pt(p), pt(a.lo), pt(a.hi), k / 4.), w, "box_MAC", m + S(z) + mc::fmt(" angle %g", k / 4.))) return;
        }
      }
    }
    c.outcome(mc::mix(h, D));
  }
  void run(mc::Ctx & c) {
    long n = (D == 1 ? 9 : D == 2 ? 4 : 2) + (c.thorough ? 1 : 0);
    auto g = grid(-1, n);
    for(auto & a : g) if(c.want([&] { return mc::fmt("D=%zu scale %g offset %g point %s against all", D, s, o, S(a).c_str()); })) { c.exec(); points(c, a, g, D == 3 ? 3 : 4); }
    auto bs = boxes(0, D == 3 ? (c.thorough ? 3 : 2) : n);
    for(auto & b : bs) if(c.want([&] { return mc::fmt("D=%zu scale %g offset %g box %s%s against all", D, s, o, S(b.lo).c_str(), S(b.hi).c_str()); })) {
      c.exec();
      box_pairs(c, b, bs);
      box_points(c, b, g, 4);
    }
  }
};
static void enumerate(mc::Ctx & c) {
  for(auto so : {std::pair<double, double>{1, 0}, {0.25, -3}, {64, 1024}}) {
    Test<1>{so.first, so.second}.run(c);
    Test<2>{so.first, so.second}.run(c);
    Test<3>{so.first, so.second}.run(c);
  }
}
int main(int a, char ** v) { return mc::main_run(a, v, enumerate, 1); }
