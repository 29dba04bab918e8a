// Tensors and vectors against plain component arrays.
#include "mc.h"
#include "space_vector.h"
#include <type_traits>
using namespace flecsi;
typedef double R;
static std::string num(const std::vector<int> & v) { std::string s = "("; for(size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string(v[i]); return s + ")"; }
static bool same(R a, R b) { return a == b || (a != a && b != b); }

// ---- component access -------------------------------------------------------
template<class T, int RK> struct At;
template<class T> struct At<T, 1> { static R & f(T & t, const int * i) { return t(i[0]); } static R g(const T & t, const int * i) { return t(i[0]); } static R & e(T & t, int v) { return t[(tensor_indices::rank1_index)v]; } };
template<class T> struct At<T, 2> { static R & f(T & t, const int * i) { return t(i[0], i[1]); } static R g(const T & t, const int * i) { return t(i[0], i[1]); } static R & e(T & t, int v) { return t[(tensor_indices::rank2_index)v]; } };
template<class T> struct At<T, 3> { static R & f(T & t, const int * i) { return t(i[0], i[1], i[2]); } static R g(const T & t, const int * i) { return t(i[0], i[1], i[2]); } static R & e(T & t, int v) { return t[(tensor_indices::rank3_index)v]; } };
template<class T> struct At<T, 4> { static R & f(T & t, const int * i) { return t(i[0], i[1], i[2], i[3]); } static R g(const T & t, const int * i) { return t(i[0], i[1], i[2], i[3]); } static R & e(T & t, int v) { return t[(tensor_indices::rank4_index)v]; } };

template<class T, int RK, bool SYM, bool CUBE, class OUT> static void access(mc::Ctx & c, OUT nm) {
  if(!c.want([&] { return "component access of " + nm; })) return;
  c.exec();
  std::vector<std::vector<int>> all(1);
  for(int r = 0; r < RK; ++r) {
    std::vector<std::vector<int>> n;
    for(auto & v : all) for(int i = 0; i < (int)T::DIM[r]; ++i) { auto w = v; w.push_back(i); n.push_back(w); }
    all = n;
  }
  auto canon = [&](std::vector<int> v) { if(SYM) std::sort(v.begin(), v.end()); return v; };
  std::map<std::vector<int>, int> id;
  for(auto & v : all) { auto k = canon(v); if(!id.count(k)) { int n = id.size(); id[k] = n; } }
  c.check(T::size() == id.size(), "size", mc::fmt("%s stores %zu values, it has %zu independent components", nm.c_str(), (size_t)T::size(), id.size()));
  c.check((int)T::RANK == RK, "rank", nm);
  if(sizeof(T) != T::size() * sizeof(R)) c.fail("sizeof", nm);
  for(auto & v : all) {
    // writing one component changes it and its symmetric copies, nothing else; by either notation
    for(int how = 0; how < 2; ++how) {
      int ev = 0;
      for(int i : v) ev = 4 * ev + i;
      if(how == 1 && !CUBE) continue;
      T t(R(0));
      R & ref = how ? At<T, RK>::e(t, ev) : At<T, RK>::f(t, v.data());
      if(!((char *)&ref >= (char *)&t && (char *)(&ref + 1) <= (char *)(&t + 1))) { c.fail("outside", mc::fmt("component %s of %s is outside the tensor", num(v).c_str(), nm.c_str())); continue; }
      ref = 7;
      const T & ct = t;
      for(auto & w : all) {
        R want = id[canon(w)] == id[canon(v)] ? 7 : 0;
        int ew = 0;
        for(int i : w) ew = 4 * ew + i;
        R got = At<T, RK>::g(ct, w.data());
        if(!c.check(same(got, want), how ? "write-name" : "write-index", mc::fmt("%s: after writing component %s by %s, component %s is %g instead of %g", nm.c_str(), num(v).c_str(), how ? "name" : "indices", num(w).c_str(), got, want))) return;
        if(CUBE) {
          R g2 = At<T, RK>::e(t, ew);
          if(!c.check(same(g2, want), "read-name", mc::fmt("%s: component %s read by name is %g instead of %g", nm.c_str(), num(w).c_str(), g2, want))) return;
        }
        c.steps(1);
      }
      // exactly one stored value changed
      int n = 0;
      for(size_t i = 0; i < T::size(); ++i) n += ct[i] != 0;
      c.check(n == 1, "shared", mc::fmt("%s: one component written, %d stored values changed", nm.c_str(), n));
      c.outcome(mc::mix(mc::hs(how, nm), &ref - (R *)&t));
    }
  }
}

// ---- operators: all sequences of operations on two variables ----------------
// x and y are tensors; operations include self-aliasing forms
struct Op { const char * nm; int k; };
template<class T> static void program(mc::Ctx & c, const std::string & nm, int L) {
  const size_t N = T::size();
  typedef std::vector<R> V;
  static const char * ON[] = {"x+=y", "x-=y", "x+=x", "x-=x", "x=x+y", "x=y-x", "x=x+x", "x=x-x", "y=x", "x=x", "x*=2", "x/=4", "x=x*3", "x=3*x", "x=x/2", "x+=1", "x-=1", "x=5", "x*=x[0]", "x+=x[last]", "x=x[last]", "y=y-x", "swap"};
  const int NO = sizeof ON / sizeof *ON;
  std::vector<int> seq;
  auto exec = [&](const std::vector<int> & q) {
    T x, y;
    V X(N), Y(N);
    for(size_t i = 0; i < N; ++i) { x[i] = X[i] = R(i * 3 % 7) - 2; y[i] = Y[i] = R(i * 5 % 11) - 4; }
    for(int o : q) {
      R s;
      T * rp = nullptr;
      switch(o) {
        case 0: rp = &(x += y); for(size_t i = 0; i < N; ++i) X[i] += Y[i]; break;
        case 1: rp = &(x -= y); for(size_t i = 0; i < N; ++i) X[i] -= Y[i]; break;
        case 2: rp = &(x += x); for(size_t i = 0; i < N; ++i) X[i] += X[i]; break;
        case 3: rp = &(x -= x); for(size_t i = 0; i < N; ++i) X[i] = 0; break;
        case 4: x = x + y; for(size_t i = 0; i < N; ++i) X[i] += Y[i]; break;
        case 5: x = y - x; for(size_t i = 0; i < N; ++i) X[i] = Y[i] - X[i]; break;
        case 6: x = x + x; for(size_t i = 0; i < N; ++i) X[i] += X[i]; break;
        case 7: x = x - x; for(size_t i = 0; i < N; ++i) X[i] = 0; break;
        case 8: y = x; Y = X; break;
        case 9: rp = &(x = x); break;
        case 10: rp = &(x *= R(2)); for(auto & v : X) v *= 2; break;
        case 11: rp = &(x /= R(4)); for(auto & v : X) v /= 4; break;
        case 12: x = x * R(3); for(auto & v : X) v *= 3; break;
        case 13: x = R(3) * x; for(auto & v : X) v *= 3; break;
        case 14: { const T & cx = x; T z = cx / R(2); x = z; for(auto & v : X) v /= 2; } break;
        case 15: rp = &(x += R(1)); for(auto & v : X) v += 1; break;
        case 16: rp = &(x -= R(1)); for(auto & v : X) v -= 1; break;
        case 17: rp = &(x = R(5)); for(auto & v : X) v = 5; break;
        case 18: x *= x[size_t(0)]; s = X[0]; for(auto & v : X) v *= s; break;
        case 19: x += x[N - 1]; s = X[N - 1]; for(auto & v : X) v += s; break;
        case 20: x = x[N - 1]; s = X[N - 1]; for(auto & v : X) v = s; break;
        case 21: y = y - x; for(size_t i = 0; i < N; ++i) Y[i] -= X[i]; break;
        case 22: { T t(x); x = y; y = t; std::swap(X, Y); } break;
      }
      c.steps(1);
      if(rp && rp != &x) { c.fail("returns-self", mc::fmt("%s: %s does not return its left operand", nm.c_str(), ON[o])); return; }
      uint64_t h = N;
      bool eq = true;
      for(size_t i = 0; i < N; ++i) {
        h = mc::hd(mc::hd(h, x[i]), y[i]);
        eq &= X[i] == Y[i];
        if(!c.check(same(x[i], X[i]) && same(y[i], Y[i]), "operators", mc::fmt("%s: after %s stored value %zu: x %g (expected %g) y %g (expected %g)", nm.c_str(), ON[o], i, x[i], X[i], y[i], Y[i]))) return;
      }
      c.check((x == y) == eq && (x != y) == !eq && x == x && !(x != x), "comparison", mc::fmt("%s: after %s == and != disagree with the components", nm.c_str(), ON[o]));
      c.outcome(h);
      c.state(mc::hs(h, nm));
    }
    // each single differing component decides the comparison
    for(size_t i = 0; i < N; ++i) { T z(x); c.check(z == x && !(z != x), "copy", nm); z[i] = z[i] + 64; c.check(!(z == x) && z != x, "comparison", mc::fmt("%s: tensors differing in stored value %zu compare equal", nm.c_str(), i)); }
  };
  for(int a = 0; a < NO; ++a) for(int b = 0; b < NO; ++b) {
    if(!c.want([&] { return nm + ": all programs of up to " + std::to_string(L) + " operations starting with " + ON[a] + "; " + ON[b]; })) continue;
    if(L == 2) { c.exec(); exec({a, b}); continue; }
    for(int d = 0; d < NO; ++d) {
      if(L == 3) { c.exec(); exec({a, b, d}); }
      else for(int e = 0; e < NO; ++e) { c.exec(); exec({a, b, d, e}); }
    }
  }
}
template<class T> static void print(mc::Ctx & c, const std::string & nm) {
  if(!c.want([&] { return "construction and printing of " + nm; })) return;
  c.exec();
  const size_t N = T::size();
  T f(R(3)), g{R(3)};
  for(size_t i = 0; i < N; ++i) c.check(f[i] == 3 && g[i] == 3, "fill", nm);
  T t;
  std::string want = "[";
  for(size_t i = 0; i < N; ++i) { t[i] = i + 2; want += (i ? ", " : "") + std::to_string(i + 2); }
  want += "]";
  std::stringstream ss;
  ss << t;
  c.check(ss.str() == want, "print", nm + " prints " + ss.str());
  T u = t;
  c.check(u == t, "copy", nm);
}
template<int D> static void vectors(mc::Ctx & c) {
  typedef space_vector_u<R, D> P;
  std::vector<int> vals = c.thorough ? std::vector<int>{-3, -2, -1, 0, 1, 2, 4} : D == 3 ? std::vector<int>{-2, 0, 1, 3} : std::vector<int>{-3, -2, -1, 0, 1, 2, 4};
  std::vector<std::array<int, 3>> pts(1, {0, 0, 0});
  for(int d = 0; d < D; ++d) { auto o = pts; pts.clear(); for(auto p : o) for(int v : vals) { p[d] = v; pts.push_back(p); } }
  auto close = [](R a, R b) { return std::fabs(a - b) <= 1e-14 * (1 + std::fabs(b)); };
  for(auto & A : pts) {
    if(!c.want([&] { return mc::fmt("%dD vector pairs with a=(%d,%d,%d)", D, A[0], A[1], A[2]); })) continue;
    c.exec();
    P a;
    for(int d = 0; d < D; ++d) a[d] = A[d];
    R aa = 0;
    for(int d = 0; d < D; ++d) aa += R(A[d]) * A[d];
    c.check(close(magnitude(a), std::sqrt(aa)), "magnitude", mc::fmt("|a|=%g", magnitude(a)));
    for(auto & B : pts) {
      P b;
      R ab = 0, d2 = 0;
      for(int d = 0; d < D; ++d) { b[d] = B[d]; ab += R(A[d]) * B[d]; d2 += R(A[d] - B[d]) * (A[d] - B[d]); }
      std::string w = mc::fmt("a=(%d,%d,%d) b=(%d,%d,%d)", A[0], A[1], A[2], B[0], B[1], B[2]);
      c.check(dot(a, b) == ab, "dot", w + mc::fmt(": dot %g", dot(a, b)));
      c.check(close(distance(a, b), std::sqrt(d2)), "distance", w + mc::fmt(": distance %g", distance(a, b)));
      P m = midpoint(a, b);
      for(int d = 0; d < D; ++d) c.check(m[d] == 0.5 * (A[d] + B[d]), "midpoint", w);
      for(auto & q : {std::vector<P>{a, b}, std::vector<P>{a, b, b}, std::vector<P>{a}}) {
        P s(R(0));
        s = centroid(q);
        for(int d = 0; d < D; ++d) { R e = 0; for(auto & p : q) e += p[d]; c.check(close(s[d], e / q.size()), "centroid", w); }
      }
      auto x = cross(a, b);
      R X[3] = {R(A[1]) * B[2] - R(A[2]) * B[1], R(A[2]) * B[0] - R(A[0]) * B[2], R(A[0]) * B[1] - R(A[1]) * B[0]};
      for(int d = 0; d < D; ++d) c.check(x[d] == (D == 3 ? X[d] : 0.), "cross", w + mc::fmt(": component %d is %g", d, x[d]));
      R cm = D == 1 ? 0 : std::sqrt(X[0] * X[0] + X[1] * X[1] + X[2] * X[2]);
      c.check(close(cross_magnitude(a, b), cm), "cross-magnitude", w + mc::fmt(": %g instead of %g", cross_magnitude(a, b), cm));
      if constexpr(D == 2) { auto n = normal(a, b); c.check(n[0] == -(R(B[1]) - A[1]) && n[1] == R(B[0]) - A[0], "normal", w); }
      if constexpr(D == 3) { auto n = normal(a, b); for(int d = 0; d < 3; ++d) c.check(n[d] == X[d], "normal", w); }
      c.steps(1);
      c.outcome(mc::hd(mc::hd(mc::hd(D, ab), d2), cm));
    }
  }
}
#define G(...) tensor_u<R, symmetry_type::generic, __VA_ARGS__>
#define S(...) tensor_u<R, symmetry_type::symmetric, __VA_ARGS__>
template<class T, int RK, bool SYM, bool CUBE> static void all(mc::Ctx & c, const std::string & nm, int L) {
  access<T, RK, SYM, CUBE>(c, nm);
  print<T>(c, nm);
  program<T>(c, nm, L);
}
static void enumerate(mc::Ctx & c) {
  if(PART == 0) { vectors<1>(c); vectors<2>(c); vectors<3>(c); }
  int L = c.thorough ? 4 : 3;
#define D4(d) \
  all<G(size_t(d)), 1, false, true>(c, "vector<" #d ">", L); \
  all<G(size_t(d), size_t(d)), 2, false, true>(c, "tensor<" #d "," #d ">", L); \
  all<G(size_t(d), size_t(d), size_t(d)), 3, false, true>(c, "tensor<" #d "," #d "," #d ">", 2 + c.thorough); \
  all<G(size_t(d), size_t(d), size_t(d), size_t(d)), 4, false, true>(c, "tensor<" #d "," #d "," #d "," #d ">", 2); \
  all<S(size_t(d), size_t(d)), 2, true, true>(c, "symmetric<" #d "," #d ">", L); \
  all<S(size_t(d), size_t(d), size_t(d)), 3, true, true>(c, "symmetric<" #d "," #d "," #d ">", 2 + c.thorough); \
  all<S(size_t(d), size_t(d), size_t(d), size_t(d)), 4, true, true>(c, "symmetric<" #d "," #d "," #d "," #d ">", 2);
#if PART == 0
  D4(1) D4(2)
#elif PART == 1
  D4(3)
#else
  D4(4)
#endif
#if PART == 0
  all<G(size_t(2), size_t(3)), 2, false, false>(c, "tensor<2,3>", L);
  all<G(size_t(3), size_t(2)), 2, false, false>(c, "tensor<3,2>", L);
  all<G(size_t(4), size_t(2), size_t(3)), 3, false, false>(c, "tensor<4,2,3>", 2);
  all<G(size_t(2), size_t(3), size_t(4), size_t(1)), 4, false, false>(c, "tensor<2,3,4,1>", 2);
#endif
}
int main(int argc, char ** argv) { return mc::main_run(argc, argv, enumerate); }
