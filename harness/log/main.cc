// The real logging library on simulated processes and with its threads as fibers: every sequence of calls of
// the bounded set, and every interleaving with the collecting thread up to a number of deviations.
#include "mc.h"
#include "sim.h"
#include "../tree/common.h"
#include "lcase.h"
#include "thr.h"
#include <dlfcn.h>
#include <regex>
using namespace mc;
using std::string;
using std::vector;
static const char * SEVN[] = {"trace", "info", "warn", "error"};
static string opstr(const LOp & o) {
  const char * K[] = {"one", "rank", "every", "fatal", "assert", "container", "output_rank", "add", "enable", "disable", "init", "guard", "pop"};
  string s = K[o.k];
  if(o.k <= EVERY || o.k == CONT) s += string(" ") + SEVN[o.sev];
  s += fmt(" %d %d", o.a, o.b);
  if(o.text.size()) s += o.text.size() > 30 ? fmt(" %zu characters", o.text.size()) : " '" + o.text + "'";
  if(o.list.size()) s += fmt(" {%zu}", o.list.size());
  for(auto & t : o.stamp) s += fmt(" %ld.%06ld", t.first, t.second);
  return s;
}
static string cstr(const LCase & k) { string s; for(auto & o : k.p) s += (s.size() ? "; " : "") + opstr(o); return fmt("%d processes: ", k.n) + s; }
struct Sink : std::streambuf {
  string s;
  int overflow(int c) override { if(c == EOF) return 0; if(c == '#') thr::nap(); s += (char)c; return c; }
};
struct Prefix { string letter, line; };
struct Rec { string head, body; };
// a message expected somewhere
struct Exp { string head, body; bool direct; int gather; long s, u; int rank; bool longm; };
static string strip(const string & s) { static const std::regex e("\033\\[(0|[01];3[0-7])m"); return std::regex_replace(s, e, ""); }
static vector<Rec> parse(const string & t, string & junk) {
  static const std::regex h("\\[[TIWE][0-9]{4} [0-9:]{8} [^ \\]]*:[0-9]+ r[0-9]+\\] ");
  vector<Rec> v;
  auto b = std::sregex_iterator(t.begin(), t.end(), h), e = std::sregex_iterator();
  size_t last = 0;
  for(; b != e; ++b) {
    if(v.empty()) junk = t.substr(0, b->position());
    else v.back().body = t.substr(last, b->position() - last);
    v.push_back({b->str(), ""});
    last = b->position() + b->length();
  }
  if(v.empty()) junk = t; else v.back().body = t.substr(last);
  return v;
}
struct Run { bool ok = true; string key, msg; uint32_t points = 0; vector<vector<string>> sink; vector<string> err; vector<LOut> out; };
static string lib_path(const string & tag, int r) {
  static std::map<string, string> m;
  string k = tag + "." + std::to_string(r);
  auto it = m.find(k);
  if(it != m.end()) return it->second;
  const char * dir = getenv("RANKDIR");
  std::ifstream f(string(dir ? dir : "/tmp/b") + "/librank_" + tag + ".so", std::ios::binary);
  std::stringstream ss;
  ss << f.rdbuf();
  const char * sc = getenv("MC_SCRATCH");
  string cp = string(sc ? sc : "/tmp") + "/rl." + std::to_string(getpid()) + "." + k + ".so";
  std::ofstream(cp, std::ios::binary) << ss.str();
  return m[k] = cp;
}
static Run execute(const string & tag, const LCase & k, const thr::Sched & sc, bool reverse) {
  Run R;
  int n = k.n;
  vector<Sink> sk(4 * n);
  vector<std::unique_ptr<std::ostream>> os;
  vector<void *> h(n);
  vector<log_entry_t> f(n);
  R.out.resize(n);
  R.sink.resize(n);
  auto * cl = std::clog.rdbuf();
  auto * ce = std::cerr.rdbuf();
  for(int r = 0; r < n; ++r) {
    std::clog.rdbuf(&sk[4 * r]);
    std::cerr.rdbuf(&sk[4 * r + 3]);
    for(int i = 0; i < 2; ++i) { os.emplace_back(new std::ostream(&sk[4 * r + 1 + i])); R.out[r].sink[i] = os.back().get(); }
    R.out[r].err = &sk[4 * r + 3];
    h[r] = dlopen(lib_path(tag, r).c_str(), RTLD_LOCAL | RTLD_NOW);
    if(!h[r]) { fprintf(stderr, "dlopen: %s\n", dlerror()); _exit(3); }
    f[r] = (log_entry_t)dlsym(h[r], "log_entry");
  }
  thr::begin(sc, n);
  sim::Sched ms;
  for(int r = 0; r < n; ++r) ms.prio.push_back(reverse ? n - 1 - r : r);
  auto res = sim::run(n, ms, [&](int r) { f[r](r, &k, &R.out[r]); });
  if(!res.ok) { R.ok = false; R.key = res.key; R.msg = res.msg; }
  string stuck;
  if(R.ok) for(int r = 0; r < n; ++r) { thr::main_of(r); std::cerr.rdbuf(&sk[4 * r + 3]); dlclose(h[r]); }
  R.points = thr::end(stuck);
  std::clog.rdbuf(cl);
  std::cerr.rdbuf(ce);
  if(R.ok && stuck.size()) { R.ok = false; R.key = "thread"; R.msg = stuck; }
  for(int r = 0; r < n; ++r) { for(int i = 0; i < 3; ++i) R.sink[r].push_back(sk[4 * r + i].s); R.err.push_back(sk[4 * r + 3].s); }
  return R;
}
struct Build { int strip; bool tags; };
static void judge(Ctx & c, const Build & B, const LCase & k, const Run & R, const string & w0) {
  int n = k.n;
  char st[32];
  time_t ft = thr::FIXED_TIME;
  strftime(st, sizeof st, "%m%d %H:%M:%S", localtime(&ft));
  vector<vector<vector<Exp>>> ex(n, vector<vector<Exp>>(3));
  struct Mode { bool have = false, on = false, color = false; };
  vector<vector<Mode>> mode(n, vector<Mode>(3));
  vector<vector<std::pair<bool, bool>>> colored(n, vector<std::pair<bool, bool>>(3, {false, false})); // ever coloured, ever plain
  vector<vector<bool>> loose(n, vector<bool>(3, false)); // switched while packets were under way
  for(int r = 0; r < n; ++r) {
    mode[r][0].have = mode[r][0].on = mode[r][0].color = true;
    colored[r][0].first = true;
    size_t nfatal = 0, npass = 0;
    int active = 0, guard = -1;
    bool init = false, all = false;
    std::set<int> on;
    vector<int> stack;
    long S = 1000, U = 0;
    for(size_t at = 0; at < k.p.size(); ++at) {
      auto & o = k.p[at];
      string w = w0 + fmt("process %d call %zu: ", r, at);
      if(o.stamp.size()) S = o.stamp[r].first, U = o.stamp[r].second;
      bool tag = !B.tags || (init && (all || guard < 0 || on.count(guard)));
      string hd = fmt("[%c%s rank.cc:%d r%d] ", "TIWE"[o.sev], st, R.out[r].line[at], init ? r : 0);
      auto emit = [&](bool sel, bool direct, string body) {
        if(o.sev == 3) { // straight to the standard error
          if(B.strip > 3 || (!sel && direct)) return;
          string t = strip(R.err[r]), rec = hd + body;
          size_t p = t.find(rec), q = p == string::npos ? p : t.find(rec, p + 1);
          if(R.out[r].line[at] && std::count_if(k.p.begin(), k.p.end(), [&](const LOp & z) { return z.k == o.k && z.text == o.text && z.sev == 3; }) == 1)
            c.check(p != string::npos && q == string::npos, "error", w + (p == string::npos ? "error message not shown" : "error message shown twice"));
          return;
        }
        if(!sel || B.strip > o.sev || !tag) return;
        for(int s = 0; s < 3; ++s) {
          int rr = direct ? r : 0;
          if(direct) { if(mode[r][s].on) ex[r][s].push_back({hd, body, true, -1, 0, 0, r, false}); }
          else if(init) { if(mode[0][s].on) ex[0][s].push_back({hd, body, false, (int)at, S, U, r, body.size() > 900}); (void)rr; }
        }
      };
      switch(o.k) {
        case ONE: emit(r == active, true, o.text + "\n"); break;
        case RANK: emit(r == o.a, true, o.text + "\n"); break;
        case EVERY: emit(true, false, (o.list.size() ? o.list[r] : o.text) + "\n"); break;
        case CONT: {
          const char D[] = {'\n', ' ', ':', ';', ','};
          string b = o.text + (o.b == 0 ? "\n" : " ");
          for(size_t i = 0; i < o.list.size(); ++i) {
            if(o.b == 0) b += fmt("[C entry %zu]\n", i);
            b += o.list[i];
            if(i + 1 < o.list.size()) b += D[o.b];
          }
          emit(o.a == 0 ? r == active : o.a == 1 ? r == 0 : true, o.a != 2, b + "\n");
          break;
        }
        case FATAL:
        case ASSERT: {
          bool must = o.k == FATAL || !o.a;
          if(!must) { c.check(npass < R.out[r].passed.size() && R.out[r].passed[npass] == (int)at, "assertion", w + "a true condition stops the program"); ++npass; break; }
          string want = fmt("FATAL ERROR rank.cc:%d ", R.out[r].line[at]) + o.text + (o.k == FATAL ? "7" : "") + "\n";
          if(c.check(nfatal < R.out[r].fatal.size(), o.k == FATAL ? "fatal" : "assertion", w + "no exception")) {
            string g = strip(R.out[r].fatal[nfatal]);
            c.check(g == want, "fatal", w + "'" + g + "' want '" + want + "'");
          }
          ++nfatal;
          break;
        }
        case SETRANK: active = o.a; break;
        case ADD: mode[r][1 + o.a] = {true, true, (bool)o.b}; (o.b ? colored[r][1 + o.a].first : colored[r][1 + o.a].second) = true; break;
        case ENABLE: case DISABLE: mode[r][o.a == 2 ? 0 : 1 + o.a].on = o.k == ENABLE; break;
        case INIT:
          init = true;
          on.clear();
          all = o.text == "all";
          if(o.text.find("alpha") != string::npos) on.insert(0);
          if(o.text.find("beta") != string::npos) on.insert(1);
          break;
        case GUARD: stack.push_back(guard); guard = o.a; break;
        case POP: if(stack.size()) guard = stack.back(), stack.pop_back(); break;
      }
    }
    c.check(npass == R.out[r].passed.size() && nfatal == R.out[r].fatal.size(), "fatal", w0 + fmt("process %d: %zu exceptions and %zu passes, want %zu and %zu", r, R.out[r].fatal.size(), R.out[r].passed.size(), nfatal, npass));
  }
  uint64_t h = 1;
  for(int r = 0; r < n; ++r) for(int s = 0; s < 3; ++s) {
    string w = w0 + fmt("process %d, %s stream: ", r, s == 0 ? "standard" : s == 1 ? "first" : "second");
    string vis = strip(R.sink[r][s]);
    if(!colored[r][s].first) c.check(R.sink[r][s].find('\033') == string::npos, "colour codes", w + "in a stream without colours");
    // colour codes never reach the visible text in pieces
    c.check(vis.find('\033') == string::npos, "broken_line", w + "a torn colour code");
    string junk;
    auto v = parse(vis, junk);
    auto & e = ex[r][s];
    c.check(junk.empty(), e.empty() ? "unwanted" : "broken_line", w + "text outside any message: '" + junk.substr(0, 80) + "'");
    vector<int> used(v.size(), -1);
    vector<int> pos(e.size(), -1);
    for(size_t i = 0; i < e.size(); ++i) {
      for(size_t j = 0; j < v.size() && pos[i] < 0; ++j) if(used[j] < 0 && v[j].head == e[i].head && (v[j].body == e[i].body || (e[i].longm && v[j].body.size() >= 900 && e[i].body.compare(0, v[j].body.size(), v[j].body) == 0))) pos[i] = (int)j, used[j] = (int)i;
    }
    size_t miss = 0, extra = 0;
    string ms, xs;
    for(size_t i = 0; i < e.size(); ++i) if(pos[i] < 0) { if(!miss++) ms = e[i].head + e[i].body.substr(0, 60); }
    for(size_t j = 0; j < v.size(); ++j) if(used[j] < 0) { if(!extra++) xs = v[j].head + v[j].body.substr(0, 120); }
    if(miss && extra) c.fail("broken_line", w + "'" + xs + "' where '" + ms + "' is due");
    else if(miss) c.fail("lost_message", w + fmt("%zu missing, '", miss) + ms + "'");
    else if(extra) c.fail(e.size() && v.size() > e.size() && std::any_of(e.begin(), e.end(), [&](const Exp & q) { return xs == q.head + q.body; }) ? "repeated_message" : "unwanted", w + "'" + xs + "'");
    c.eval();
    for(size_t i = 0; i < e.size(); ++i) for(size_t j = i + 1; j < e.size(); ++j) {
      if(pos[i] < 0 || pos[j] < 0) continue;
      auto &a = e[i], &b = e[j];
      bool before = false, after = false;
      auto less = [](const Exp & x, const Exp & y) { return x.s != y.s ? x.s < y.s : x.u < y.u; };
      if(a.direct && b.direct) before = true;
      else if(!a.direct && !b.direct) {
        bool l = less(a, b), g = less(b, a);
        if(a.gather == b.gather) before = l, after = g;
        else { before = a.gather < b.gather && l; after = b.gather < a.gather && g; }
      }
      if(before && pos[i] > pos[j]) c.fail("order", w + "'" + b.head + b.body.substr(0, 30) + "' before '" + a.head + a.body.substr(0, 30) + "'");
      if(after && pos[j] > pos[i]) c.fail("order", w + "'" + a.head + a.body.substr(0, 30) + "' before '" + b.head + b.body.substr(0, 30) + "'");
    }
    for(auto & q : v) h = hs(hs(h, q.head), q.body.substr(0, 40));
    h = mix(h, r * 4 + s);
  }
  c.outcome(h);
}
static string tagof(const Build & B) { return fmt("log%d%s", B.strip, B.tags ? "t" : ""); }
// every schedule within dev deviations of both bases
static void explore(Ctx & c, const Build & B, const LCase & k, int dev) {
  c.isolated([&] {
    for(bool eager : {false, true}) {
      std::function<void(vector<std::pair<uint32_t, uint32_t>>)> go = [&](vector<std::pair<uint32_t, uint32_t>> d) {
        thr::Sched s;
        s.eager = eager;
        s.dev = d;
        string w = s.str();
        if(c.replaying && c.replay_sub.size() && c.replay_sub != w && c.replay_sub.compare(0, w.size(), w) != 0) return;
        c.where(w);
        c.alive();
        auto R = execute(tagof(B), k, s, false);
        c.exec();
        c.steps(R.points);
        w = "threads " + w + ": ";
        if(!R.ok) { c.fail(R.key, w + R.msg); return; }
        judge(c, B, k, R, w);
        if((int)d.size() < dev && c.fails < 5) for(uint32_t p = d.empty() ? 0 : d.back().first + 1; p < R.points; ++p) for(uint32_t o : {0, 1, 2, 3, 5}) {
          if(o == (eager ? 3u : 0u)) continue;
          auto e = d;
          e.push_back({p, o});
          go(e);
        }
      };
      go({});
    }
  });
}
static LOp op(LKind k, int sev = 1, int a = 0, int b = 0, string t = "", vector<string> l = {}) { LOp o; o.k = k; o.sev = sev; o.a = a; o.b = b; o.text = t; o.list = l; return o; }
static void batch(Ctx & c, const Build & B, vector<LCase> & q) {
  if(q.empty()) return;
  auto cs = q;
  q.clear();
  if(!c.want([&] { return fmt("strip level %d%s, %zu sequences from: ", B.strip, B.tags ? " with tags" : "", cs.size()) + cstr(cs[0]); })) return;
  c.isolated([&] {
    for(auto & k : cs) for(bool rev : {false, true}) {
      if(rev && k.n == 1) continue;
      string w = cstr(k) + (rev ? " (reverse)" : "");
      c.where(w);
      c.alive();
      thr::Sched s;
      s.eager = rev;
      auto R = execute(tagof(B), k, s, rev);
      c.exec();
      c.steps(k.p.size());
      if(!R.ok) { c.fail(R.key, w + ": " + R.msg); continue; }
      judge(c, B, k, R, w + ": ");
      if(c.fails > 5) break;
    }
  });
}
static void enumerate(Ctx & c) {
  th::scratch();
  bool T = c.thorough;
  // ---- calls by themselves
  for(int strip = 0; strip <= 4; ++strip) for(bool tags : {false, true}) {
    if(tags && strip) continue;
    Build B{strip, tags};
    vector<LOp> A;
    for(int s = 0; s < 4; ++s) A.push_back(op(ONE, s, 0, 0, "say#"));
    A.push_back(op(ONE, 1, 0, 0, "two\nlines"));
    A.push_back(op(ONE, 2, 0, 0, ""));
    for(int s : {1, 2}) for(int r : {0, 1}) A.push_back(op(RANK, s, r, 0, "of one"));
    A.push_back(op(RANK, 3, 1, 0, "of one"));
    A.push_back(op(SETRANK, 0, 0)); A.push_back(op(SETRANK, 0, 1)); A.push_back(op(SETRANK, 0, 2));
    for(int i : {0, 1}) for(int col : {0, 1}) A.push_back(op(ADD, 0, i, col));
    A.push_back(op(FATAL, 0, 0, 0, "stop")); A.push_back(op(ASSERT, 0, 0, 0, "wrong")); A.push_back(op(ASSERT, 0, 1, 0, "right"));
    for(int d = 0; d < 5; ++d) A.push_back(op(CONT, d % 3, d % 2, d, "values", {"a", "bb", "c"}));
    A.push_back(op(CONT, 1, 0, 4, "none", {})); A.push_back(op(CONT, 2, 0, 0, "single", {"z"}));
    if(tags) { for(int g : {0, 1}) A.push_back(op(GUARD, 0, g)); A.push_back(op(POP)); }
    vector<LCase> q;
    for(int n : {1, 2, 3}) for(auto init : {"", "none", "all", "alpha", "beta", "alpha,beta", "gamma,beta"}) {
      if((!tags && *init && string(init) != "none")) continue;
      for(int d = 1; d <= (T ? 3 : 2); ++d) {
        vector<int> ix(d, 0);
        for(;;) {
          LCase k;
          k.n = n;
          if(*init) k.p.push_back(op(INIT, 0, 0, 0, init));
          bool ok = true;
          int depth = 0;
          std::set<int> added;
          for(int i : ix) {
            auto & o = A[i];
            if(o.k == ADD) added.insert(o.a);
            if(o.k == GUARD) ++depth;
            if(o.k == POP && --depth < 0) ok = false;
            if((o.k == SETRANK || o.k == RANK) && o.a >= n && o.a > 1) ok = false;
            k.p.push_back(o);
          }
          // then: a stream is taken out and put back around messages
          auto tail = [&](LCase z, int s) {
            z.p.push_back(op(ONE, 1, 0, 0, "one"));
            if(s >= 0) {
              z.p.push_back(op(DISABLE, 0, s)); z.p.push_back(op(ONE, 2, 0, 0, "off")); z.p.push_back(op(RANK, 1, 0, 0, "off again"));
              z.p.push_back(op(ENABLE, 0, s)); z.p.push_back(op(ONE, 1, 0, 0, "back"));
            }
            q.push_back(z);
          };
          if(ok && (d < 3 || n == 2)) {
            tail(k, -1);
            if(added.size() || d == 1) tail(k, added.size() ? *added.begin() : 2);
          }
          int j = d - 1;
          while(j >= 0 && ++ix[j] == (int)A.size()) ix[j--] = 0;
          if(j < 0) break;
          if(q.size() >= 200) batch(c, B, q);
        }
      }
      batch(c, B, q);
    }
  }
  // ---- longer histories of few kinds of calls: nested tag guards; streams coming and going
  for(int part = 0; part < 2; ++part) {
    Build B{0, part == 0};
    vector<LOp> A;
    if(part == 0) A = {op(GUARD, 0, 0), op(GUARD, 0, 1), op(POP), op(ONE, 1, 0, 0, "say"), op(RANK, 2, 0, 0, "rank")};
    else {
      A = {op(ONE, 2, 0, 0, "say so"), op(ONE, 1, 0, 0, "say")};
      for(int i : {0, 1}) for(int col : {0, 1}) A.push_back(op(ADD, 0, i, col));
      for(int i : {0, 1, 2}) { A.push_back(op(DISABLE, 0, i)); A.push_back(op(ENABLE, 0, i)); }
    }
    vector<LCase> q;
    int D = part == 0 ? (T ? 7 : 5) : (T ? 5 : 4);
    for(auto init : {"none", "alpha", "beta", "all", ""}) {
      if(part && *init && string(init) != "none") continue;
      for(int d = 1; d <= D; ++d) {
        vector<int> ix(d, 0);
        for(;;) {
          LCase k;
          k.n = 1;
          if(*init) k.p.push_back(op(INIT, 0, 0, 0, init));
          bool ok = true;
          int depth = 0, have = 0;
          for(int i : ix) {
            auto & o = A[i];
            if(o.k == ADD) have |= 1 << o.a;
            if((o.k == DISABLE || o.k == ENABLE) && o.a < 2 && !(have >> o.a & 1)) ok = false;
            if(o.k == GUARD) ++depth;
            if(o.k == POP && --depth < 0) ok = false;
            k.p.push_back(o);
          }
          if(A[ix[d - 1]].k == ONE || A[ix[d - 1]].k == RANK) ok = false; // the last message follows
          k.p.push_back(op(ONE, 1, 0, 0, "one"));
          if(ok) q.push_back(k);
          int j = d - 1;
          while(j >= 0 && ++ix[j] == (int)A.size()) ix[j--] = 0;
          if(j < 0) break;
          if(q.size() >= 200) batch(c, B, q);
        }
      }
      batch(c, B, q);
    }
  }
  // ---- collected messages under every interleaving
  struct St { const char * name; vector<vector<std::pair<long, long>>> t; }; // by message, by rank
  auto R4 = [](long s, long u, long ds, long du) { vector<std::pair<long, long>> v; for(int r = 0; r < 4; ++r) v.push_back({s + ds * r, u + du * r}); return v; };
  vector<St> sts = {
    {"in order", {R4(1000, 1, 0, 3), R4(1000, 100, 0, 3), R4(1001, 0, 0, 3)}},
    {"later processes first", {R4(1000, 90, 0, -3), R4(1000, 190, 0, -3), R4(1001, 90, 0, -3)}},
    {"seconds with zero bytes", {R4(0x10000000 + 0x1ff, 5, 1, 0), R4(0x10000000 + 0x2ff, 5, 1, 0), R4(0x10000000 + 0x3ff, 5, 1, 0)}},
    {"microseconds with zero bytes", {R4(1000, 0xff, 0, 1), R4(1000, 0x100ff, 0, 1), R4(1000, 0x20001, 0, 0x100)}},
    {"later seconds, earlier microseconds", {R4(1000, 999000, 1, -1000), R4(1010, 999000, 1, -1000), R4(1020, 999000, 1, -1000)}},
    {"skewed clocks", {R4(1000, 0, -100, 0), R4(1001, 0, -100, 0), R4(1002, 0, -100, 0)}},
    {"same time", {R4(1000, 7, 0, 0), R4(1000, 7, 0, 0), R4(1000, 7, 0, 0)}},
  };
  struct Prog { const char * name; vector<LOp> p; };
  auto ev = [](int s, const char * t, bool own = true) { LOp o = op(EVERY, s, 0, 0, t); if(own) for(int r = 0; r < 4; ++r) o.list.push_back(string(t) + std::to_string(r)); return o; };
  vector<Prog> ps = {
    {"one", {ev(1, "a")}},
    {"none", {}},
    {"two", {ev(1, "a#"), ev(2, "b")}},
    {"three", {ev(0, "a"), ev(1, "b#"), ev(2, "c", false)}},
    {"with direct", {ev(1, "a#z"), op(ONE, 1, 0, 0, "d#x"), ev(1, "b")}},
    {"direct last", {ev(2, "a#z"), op(RANK, 2, 0, 0, "d#x"), op(ONE, 0, 0, 0, "e")}},
    {"errors", {ev(3, "bad", false), ev(1, "a")}},
    {"second stream", {op(ADD, 0, 1, 0), ev(2, "a#z"), ev(1, "b")}},
    {"container", {op(CONT, 1, 2, 4, "values", {"a", "b", "c"}), op(CONT, 2, 2, 0, "lines", {"a", "b"})}},
    {"long", {op(EVERY, 1, 0, 0, string(1200, 'x')), ev(1, "b")}},
    {"nearly too long", {op(EVERY, 2, 0, 0, string(902, 'y')), ev(1, "b")}},
    {"caught", {ev(1, "a"), op(ASSERT, 0, 0, 0, "wrong"), ev(1, "b")}},
  };
  for(int strip : {0, 1, 2, 3}) for(size_t pi = 0; pi < ps.size(); ++pi) for(size_t si = 0; si < sts.size(); ++si) for(int n : {1, 2, 3, 4}) {
    if(strip && (si || n > 2)) continue;
    if(si > 0 && n == 1 && pi > 2) continue;
    LCase k;
    k.n = n;
    k.p.push_back(op(INIT, 0, 0, 0, "none"));
    int m = 0;
    for(auto o : ps[pi].p) {
      if(o.k == EVERY || (o.k == CONT && o.a == 2)) { o.stamp = sts[si].t[m++]; if(o.list.size() && o.k == EVERY) o.list.resize(n); o.stamp.resize(n); }
      k.p.push_back(o);
    }
    int dev = n == 1 ? (T ? 4 : 3) : n == 2 ? (T ? 3 : 2) : (T ? 2 : 1);
    Build B{strip, false};
    if(!c.want([&] { return fmt("strip level %d, %s, stamps %s: ", strip, ps[pi].name, sts[si].name) + cstr(k); })) continue;
    explore(c, B, k, dev);
  }
}
int main(int argc, char ** argv) { return mc::main_run(argc, argv, enumerate, 1); }
