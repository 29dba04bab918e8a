// Collective helpers (C25) and the distributed sort (C05) under the simulated MPI.
#include "../tree/common.h"
#include "ccase.h"
using namespace mc;
static std::vector<coll_entry_t> * dummy;
static void exec_case(Ctx & c, const CCase & cc, const schedx::Opt & o, const std::function<uint64_t(std::vector<CRes> &)> & post) {
  auto & L = th::RankLibs<coll_entry_t>::get("c2", "coll_entry");
  for(int i = 0; i < cc.n; ++i) L.fn[i];
  std::vector<CRes> res(cc.n);
  auto st = schedx::explore(c, cc.n, o, [&] { for(auto & r : res) r = CRes(); }, [&](int r) { L.fn[r](r, &cc, &res[r]); }, [&] { return post(res); });
  if(st.truncated) c.note("truncated");
}
static std::string join(const std::vector<std::vector<int>> & v) {
  std::string s;
  for(auto & r : v) { s += "["; for(size_t i = 0; i < r.size(); ++i) s += (i ? "," : "") + std::to_string(r[i]); s += "]"; }
  return s;
}
static void sort_case(Ctx & c, const CCase & cc, const schedx::Opt & o) {
  exec_case(c, cc, o, [&](std::vector<CRes> & res) {
    uint64_t h = cc.n;
    std::vector<El> all;
    for(int i = 0; i < cc.n; ++i) {
      c.check(res[i].out.size() == cc.key[i].size(), "count", fmt("rank %d has %zu elements, %zu requested: keys %s", i, res[i].out.size(), cc.key[i].size(), join(cc.key).c_str()));
      for(auto & e : res[i].out) { all.push_back(e); h = mix(h, e.key * 1000 + e.from * 100 + e.idx); }
      h = mix(h, 77);
    }
    std::string seq;
    for(auto & e : all) seq += fmt("%d ", e.key);
    for(size_t i = 1; i < all.size(); ++i) {
      bool ok = all[i - 1].key <= all[i].key;
      if(cc.variant && all[i - 1].key == all[i].key) ok = all[i - 1].from * 1000 + all[i - 1].idx < all[i].from * 1000 + all[i].idx;
      if(!c.check(ok, "order", fmt("element %zu is before element %zu: keys %s give %s", i - 1, i, join(cc.key).c_str(), seq.c_str()))) break;
    }
    std::set<std::pair<int, int>> seen;
    for(auto & e : all) {
      bool ok = e.from >= 0 && e.from < cc.n && e.idx >= 0 && e.idx < (int)cc.key[e.from].size() && e.key == cc.key[e.from][e.idx] && e.pay == 0.5 * e.from + e.idx && seen.insert({e.from, e.idx}).second;
      if(!c.check(ok, "permutation", fmt("element (key %d, rank %d, index %d) is not one of the input or appears twice: keys %s", e.key, e.from, e.idx, join(cc.key).c_str()))) break;
    }
    size_t tot = 0;
    for(auto & k : cc.key) tot += k.size();
    c.check(seen.size() == tot, "lost", fmt("%zu of %zu elements left: keys %s", seen.size(), tot, join(cc.key).c_str()));
    return h;
  });
}
static void exch_case(Ctx & c, const CCase & cc, const schedx::Opt & o) {
  exec_case(c, cc, o, [&](std::vector<CRes> & res) {
    uint64_t h = cc.op;
    for(int j = 0; j < cc.n; ++j) {
      std::string w = fmt("rank %d counts %s: ", j, join(cc.cnt).c_str());
      if(cc.op == 'G') {
        std::vector<El> want;
        for(int i = 0; i < cc.n; ++i) for(int k = 0; k < cc.cnt[i][0]; ++k) want.push_back(El{0, i, 0, k, 1.5 * i});
        c.check(res[j].out == want, "gather", w + fmt("gathered %zu elements, expected %zu (in rank order)", res[j].out.size(), want.size()));
        bool ok = (int)res[j].count.size() == cc.n;
        for(int i = 0; ok && i < cc.n; ++i) ok = res[j].count[i] == cc.cnt[i][0];
        c.check(ok, "gather-count", w + "wrong counts");
      }
      else if(cc.op == 'C') {
        bool ok = (int)res[j].per.size() == cc.n;
        for(int i = 0; ok && i < cc.n; ++i) {
          std::vector<El> want;
          for(int k = 0; k < cc.cnt[i][j]; ++k) want.push_back(El{0, i, j, k, i + 0.25 * j});
          c.check(res[j].per[i] == want, "exchange", w + fmt("received %zu elements from %d, expected %zu with their values", res[j].per[i].size(), i, want.size()));
          h = mix(h, res[j].per[i].size());
        }
        c.check(ok, "exchange", w + "wrong number of buffers");
      }
      else {
        std::vector<El> want;
        for(int i = 0; i < cc.n; ++i) for(int k = 0; k < cc.cnt[i][j]; ++k) want.push_back(El{i * 100 + j * 10 + k, i, j, k, i + 0.25 * j});
        c.check(res[j].out == want, "exchange", w + fmt("received %zu elements, expected %zu in sender order", res[j].out.size(), want.size()));
      }
      for(auto & e : res[j].out) h = mix(h, e.key * 7 + e.from * 31 + e.idx);
    }
    return h;
  });
}
static void red_case(Ctx & c, const CCase & cc, const schedx::Opt & o) {
  exec_case(c, cc, o, [&](std::vector<CRes> & res) {
    std::vector<double> x;
    for(auto & v : cc.val) x.push_back(v[0]);
    double mn = *std::min_element(x.begin(), x.end()), mx = *std::max_element(x.begin(), x.end()), sm = 0;
    for(double v : x) sm += v;
    bool pos = mn >= 0;
    bool big = mx > 1e9;
    int smi = 0;
    for(double v : x) if(!big) smi += (int)v;
    std::vector<double> want = {mn, mx, sm, (double)(float)mn, (double)(float)mx, (double)(float)sm, (double)(int)mn, (double)(int)mx, (double)smi};
    if(pos) { want.push_back((double)(uint64_t)mn); want.push_back((double)(uint64_t)mx); uint64_t s = 0; for(double v : x) s += (uint64_t)v; want.push_back((double)s); }
    for(int d = 0; d < 2; ++d) { double s = 0; for(int i = 0; i < cc.n; ++i) s += x[i] * (d + 1) + i; want.push_back(s); }
    uint64_t h = 3;
    for(int j = 0; j < cc.n; ++j) {
      c.check(res[j].red.size() == want.size(), "reduce", "number of results");
      for(size_t k = 0; k < want.size(); ++k) {
        if(big && k >= 3 && k < 9) continue;
        c.check(std::fabs(res[j].red[k] - want[k]) <= 1e-6 * std::fabs(want[k]), "reduce", fmt("rank %d result %zu is %.17g instead of %.17g", j, k, res[j].red[k], want[k]));
        h = hd(h, res[j].red[k]);
      }
    }
    return h;
  });
}
#if PROP == 5
static void enumerate(Ctx & c) {
  bool T = c.thorough;
  schedx::Opt o;
  schedx::Opt one; one.all_prio = false; one.both_send = false; one.rr = false;
  schedx::Opt d1 = one; d1.dev = 1;
  // all distributions of N elements over n ranks, all key patterns (as rank-order sequences over {0..K-1})
  for(int n = 1; n <= (T ? 5 : 4); ++n) {
    int maxN = n == 1 ? 5 : n <= 3 ? (T ? 8 : 7) : n == 4 ? (T ? 8 : 6) : 7;
    for(int N = n; N <= maxN; ++N) {
      // compositions of N into n parts; zeros included when allowed
      std::vector<int> cnt(n);
      std::function<void(int, int)> comp = [&](int i, int left) {
        if(i == n - 1) {
          cnt[i] = left;
          int K = N <= 5 ? 4 : T || N == 6 ? 3 : 2;
          if(n >= 4) K = N <= 5 || T ? 3 : 2;
          long tot = 1;
          for(int k = 0; k < N; ++k) tot *= K;
          // one case per composition and block of patterns
          long blk = 243;
          for(long b = 0; b < tot; b += blk)
            if(c.want([&] { std::string s = fmt("sort %d elements on %d ranks, counts", N, n); for(int k : cnt) s += fmt(" %d", k); return s + fmt(", key patterns %ld..%ld of %ld base %d", b, std::min(tot, b + blk) - 1, tot, K); }))
              for(long t = b; t < std::min(tot, b + blk); ++t) {
                CCase cc;
                cc.op = 'P'; cc.n = n; cc.variant = t & 1;
                cc.key.resize(n);
                long z = t;
                for(int r = 0; r < n; ++r) for(int k = 0; k < cnt[r]; ++k) { cc.key[r].push_back((int)(z % K)); z /= K; }
                sort_case(c, cc, one);
              }
          return;
        }
        for(int k = 0; k <= left; ++k) { cnt[i] = k; comp(i + 1, left - k); }
      };
      comp(0, N);
    }
  }
  // larger inputs in families, more ranks
  for(int n = 2; n <= (T ? 17 : 9); ++n)
    for(int per : {1, 2, 7, 33})
      for(int fam = 0; fam < 9; ++fam)
        for(int var = 0; var < 2; ++var)
          if(c.want([&] { return fmt("sort family %d on %d ranks, about %d elements each, comparator %d", fam, n, per, var); })) {
            CCase cc;
            cc.op = 'P'; cc.n = n; cc.variant = var;
            cc.key.resize(n);
            for(int r = 0; r < n; ++r) {
              int m = per;
              if(fam >= 5) m = 1 + (r * 5 + fam) % (2 * per);
              if(fam == 8) m = r == n / 2 ? per * n : r % 2;
              for(int i = 0; i < m; ++i) {
                int g = r * per + i, k = 0;
                switch(fam % 5) {
                  case 0: k = g; break;                        // sorted
                  case 1: k = -g; break;                       // reversed
                  case 2: k = 7; break;                        // all equal
                  case 3: k = (g * 7919) % 1009; break;        // mixed
                  case 4: k = (g * 31) % 5; break;             // many duplicates
                }
                cc.key[r].push_back(k);
              }
            }
            sort_case(c, cc, o.all_prio && n <= 3 && per <= 2 ? o : one);
          }
  // schedules with deviations
  for(int n = 2; n <= 3; ++n)
    for(int t = 0; t < 27; ++t)
      if(c.want([&] { return fmt("sort on %d ranks, pattern %d, all schedules with one deviation", n, t); })) {
        CCase cc;
        cc.op = 'P'; cc.n = n; cc.variant = 0;
        cc.key.resize(n);
        for(int r = 0; r < n; ++r) for(int k = 0; k < 1 + (r + t) % 3; ++k) cc.key[r].push_back((t * (k + 1) + r * 2) % 3);
        schedx::Opt q = o; q.dev = n == 2 || T ? 2 : 1;
        sort_case(c, cc, q);
      }
}
#else
static void enumerate(Ctx & c) {
  bool T = c.thorough;
  schedx::Opt o, d1, d2;
  d1.dev = 1;
  d2.dev = 2;
  schedx::Opt base = o;
  static const int PRE[] = {0, 1, 40}; // elements in the receive buffer before the call
  // all count matrices over {0,1,2} for 1-2 ranks, {0,1} for 3; samples of {0,1,2} for 3 by sum
  for(char op : {'A', 'B', 'C'})
    for(int n = 1; n <= 3; ++n) {
      int K = n < 3 ? 4 : T ? 3 : 2;
      long tot = 1;
      for(int i = 0; i < n * n; ++i) tot *= K;
      for(long t = 0; t < tot; ++t)
        if(c.want([&] { return fmt("exchange %c on %d ranks, count matrix %ld of %ld (base %d)", op, n, t, tot, K); })) {
          CCase cc;
          cc.op = op; cc.n = n; cc.variant = PRE[(t + n) % 3];
          cc.cnt.assign(n, std::vector<int>(n));
          long z = t;
          for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) { cc.cnt[i][j] = z % K; z /= K; }
          if(n == 3 && K == 2) for(auto & r : cc.cnt) for(auto & x : r) x *= 1 + t % 4;
          exch_case(c, cc, n == 2 ? (T ? d2 : d1) : T || t % 4 == 0 ? d1 : base);
        }
    }
  for(char op : {'A', 'B', 'C'})
    for(int n = 4; n <= (T ? 9 : 6); ++n)
      for(int f = 0; f < 8; ++f)
        if(c.want([&] { return fmt("exchange %c on %d ranks, family %d", op, n, f); })) {
          CCase cc;
          cc.op = op; cc.n = n; cc.variant = PRE[(f + n) % 3];
          cc.cnt.assign(n, std::vector<int>(n));
          for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j)
            cc.cnt[i][j] = f == 0 ? 1 : f == 1 ? (i + 1) % n == j : f == 2 ? (i == 0) * 3 : f == 3 ? (j == n - 1) * 2 : f == 4 ? (i + j) % 3 : f == 5 ? (i ^ j) & 3 : f == 6 ? i * n + j : (i != j) * 50;
          exch_case(c, cc, o);
        }
  for(int n = 1; n <= 4; ++n) {
    int K = n <= 3 ? 4 : 3;
    long tot = 1;
    for(int i = 0; i < n; ++i) tot *= K;
    for(long t = 0; t < tot; ++t)
      if(c.want([&] { return fmt("gather on %d ranks, counts %ld base %d", n, t, K); })) {
        CCase cc;
        cc.op = 'G'; cc.n = n; cc.variant = PRE[(t + n) % 3];
        cc.cnt.assign(n, std::vector<int>(1));
        long z = t;
        for(int i = 0; i < n; ++i) { cc.cnt[i][0] = z % K; z /= K; }
        exch_case(c, cc, n <= 2 || T ? d1 : base);
      }
  }
  static const double V[] = {0, 1, -3, 7, 1e6, 1.2e19};
  for(int n = 1; n <= 4; ++n) {
    long tot = 1;
    for(int i = 0; i < n; ++i) tot *= 6;
    for(long t = 0; t < tot; ++t)
      if(c.want([&] { return fmt("reductions on %d ranks, values %ld", n, t); })) {
        CCase cc;
        cc.op = 'R'; cc.n = n;
        cc.val.assign(n, {0});
        long z = t;
        int huge = 0, neg = 0;
        for(int i = 0; i < n; ++i) { cc.val[i][0] = V[z % 6]; huge += z % 6 == 5; neg += z % 6 == 2; z /= 6; }
        if(huge > 1 || (huge && neg)) continue; // sums must stay representable
        cc.variant = neg == 0;
        red_case(c, cc, n <= 2 ? d1 : base);
      }
  }
  // every process reads the parameter file named to rank 0
  for(int n = 1; n <= 5; ++n)
    for(int len : {10, 300, 1900})
      if(c.want([&] { return fmt("parameter file read by %d ranks, path of %d characters", n, len); })) {
        std::string d = getenv("MC_SCRATCH") ? getenv("MC_SCRATCH") : "/tmp", f = d + "/q" + std::to_string(getpid());
        while((int)f.size() < len) f = f.substr(0, d.size()) + "/." + f.substr(d.size());
        { std::ofstream q(f); q << "nparticles = 123\ninitial_data_prefix = 'abc def' # x\nsph_kernel = gaussian\n"; }
        CCase cc;
        cc.op = 'F'; cc.n = n; cc.file = f;
        exec_case(c, cc, n <= 3 ? d1 : base, [&](std::vector<CRes> & res) {
          for(int i = 0; i < n; ++i) c.check(res[i].text == "123 abc def gaussian", "params", fmt("rank %d has %s", i, res[i].text.c_str()));
          return (uint64_t)n;
        });
        unlink(f.c_str());
      }
}
#endif
int main(int argc, char ** argv) { sim::track_frees = true; return mc::main_run(argc, argv, enumerate); }
