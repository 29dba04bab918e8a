// Exhaustive-enumeration runner shared by all harnesses.
//   enumerate(Ctx&) walks the whole bounded space in a fixed order; every case is
//   guarded by if(c.want([&]{ description })). Cases are dealt to forked workers;
//   a crash, assertion, exit or hang inside a case is a violation of that case.
#pragma once
#include <algorithm>
#include <array>
#include <cassert>
#include <cfloat>
#include <climits>
#include <cmath>
#include <fstream>
#include <iostream>
#include <limits>
#include <numeric>
#include <set>
#include <sstream>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <string>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace mc {
inline std::string fmt(const char * f, ...) {
  char b[4096];
  va_list a;
  va_start(a, f);
  vsnprintf(b, sizeof b, f, a);
  va_end(a);
  return b;
}
inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  return h ^ (h >> 32);
}
inline uint64_t hd(uint64_t h, double d) { uint64_t v; memcpy(&v, &d, 8); return mix(h, v); }
inline uint64_t hs(uint64_t h, const std::string & s) { for(char c : s) h = mix(h, (unsigned char)c); return h; }
inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

struct Shared { // one per worker, in shared memory
  volatile uint64_t cur;      // index of the case being executed, ~0 between cases
  volatile uint64_t next;     // first index not yet taken
  volatile uint64_t evals, steps, execs, cases, skipped;
  char where[512];            // schedule / sub-case being executed
  char key[160];              // violation key to use if it crashes here
};

class Ctx
{
public:
  std::string tier = "quick";
  uint64_t seed = 1;
  bool thorough = false;
  bool replaying = false;
  std::string replay_sub;     // schedule to replay
  double t_end = 1e300;       // global time budget end
  double t_sub = 1e300;
  unsigned hang_s = 45;

  // returns true if this process has to execute the case
  template<class D> bool want(D && d) {
    end_case();
    uint64_t i = idx_++;
    if(mode_ == DESCRIBE) { if(i == target_) { desc_ = d(); throw (int)1; } return false; }
    if(mode_ == REPLAY) { if(i != target_) return false; }
    else {
      if(i < sh_->next) return false;
      if((int)((i / chunk_) % nw_) != w_) return false;
      if(now() > t_end) { sh_->skipped = sh_->skipped + 1; sh_->next = i + 1; return false; }
    }
    static const char * only = getenv("MC_ONLY"); // for development: the cases whose description contains it
    if(only && mode_ == RUN && ((std::string)d()).find(only) == std::string::npos) { sh_->next = i + 1; return false; }
    sh_->where[0] = 0;
    sh_->key[0] = 0;
    sh_->cur = i;
    sh_->next = i + 1;
    sh_->cases = sh_->cases + 1;
    alarm(hang_s);
    in_ = true;
    dfn_ = [d] { return (std::string)d(); };
    if(nsamp_ < 4 && (sh_->cases & (sh_->cases - 1)) == 0) { sample(d()); }
    return true;
  }
  void alive() { if(in_) alarm(hang_s); }
  void end_case() { if(in_) { in_ = false; alarm(0); sh_->cur = ~0ull; } }
  void where(const std::string & s) { strncpy(sh_->where, s.c_str(), sizeof(sh_->where) - 1); sh_->where[sizeof(sh_->where) - 1] = 0; }
  void crash_key(const std::string & s) { strncpy(sh_->key, s.c_str(), sizeof(sh_->key) - 1); }
  void eval(uint64_t n = 1) { sh_->evals = sh_->evals + n; }
  void steps(uint64_t n) { sh_->steps = sh_->steps + n; }
  void exec(uint64_t n = 1) { sh_->execs = sh_->execs + n; }
  void outcome(uint64_t h) { if(out_.size() < 4000000) out_.insert(h); }
  void state(uint64_t h) { if(st_.size() < 6000000) st_.insert(h); }
  void sample(const std::string & s) { if(nsamp_ < 4) { ++nsamp_; rec("S", s, "", ""); } }
  void note(const std::string & s) { rec("N", s, "", ""); }
  // report a violation of the current case; key names what kind of thing fails
  void fail(const std::string & key, const std::string & msg) {
    int & n = nk_[key];
    if(n++ < 2 && nk_.size() < 300) rec("V", key, dfn_ ? dfn_() : std::string(), msg);
    ++fails;
  }
  bool check(bool ok, const std::string & key, const std::string & msg) { eval(); if(!ok) fail(key, msg); return ok; }
  uint64_t fails = 0;
  // runs fn in a child process (own statics, own globals); what it finds counts here
  template<class F> void isolated(F && fn) {
    int p[2];
    if(pipe(p)) return;
    fflush(stdout);
    pid_t pid = fork();
    if(pid == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      close(p[0]);
      out_.clear(); st_.clear(); fails = 0;
      std::map<std::string, int> before = nk_;
      fn();
      std::string m;
      auto put = [&](uint64_t v) { m.append((char *)&v, 8); };
      put(out_.size()); for(auto h : out_) put(h);
      put(st_.size()); for(auto h : st_) put(h);
      put(fails);
      for(auto & k : nk_) if(before[k.first] != k.second) m += k.first + "\n";
      for(size_t o = 0; o < m.size();) { ssize_t n = write(p[1], m.data() + o, m.size() - o); if(n <= 0) break; o += n; }
      _exit(0);
    }
    close(p[1]);
    std::string r;
    char b[8192];
    ssize_t n;
    while((n = read(p[0], b, sizeof b)) > 0) r.append(b, n);
    close(p[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if(WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); _exit(97); }
    if(WEXITSTATUS(st)) _exit(WEXITSTATUS(st) == 42 ? 43 : WEXITSTATUS(st));
    size_t o = 0;
    if(r.size() < 24) _exit(98); // it ended the process without an error
    auto get = [&] { uint64_t v; memcpy(&v, r.data() + o, 8); o += 8; return v; };
    for(uint64_t k = get(); k; --k) outcome(get());
    for(uint64_t k = get(); k; --k) state(get());
    fails += get();
    std::stringstream ks(r.substr(o));
    for(std::string k; std::getline(ks, k);) ++nk_[k];
  }

private:
  friend int main_run(int, char **, void (*)(Ctx &), int);
  enum { RUN, REPLAY, DESCRIBE } mode_ = RUN;
  uint64_t idx_ = 0, target_ = 0;
  int w_ = 0, nw_ = 1, chunk_ = 1, fd_ = -1, nsamp_ = 0;
  bool in_ = false;
  Shared * sh_ = nullptr;
  std::string desc_;
  std::function<std::string()> dfn_;
  std::map<std::string, int> nk_;
  std::unordered_set<uint64_t> out_, st_;
  static std::string esc(const std::string & s) {
    std::string o;
    for(char c : s) { if(c == '\n') o += "\\n"; else if(c == '\t') o += ' '; else o += c; }
    return o;
  }
  void rec(const char * k, const std::string & a, const std::string & b, const std::string & m) {
    std::string l = std::string(k) + "\t" + std::to_string(sh_->cur) + "\t" + esc(sh_->where) + "\t" + esc(a) + "\t" + esc(b) + "\t" + esc(m) + "\n";
    if(write(fd_, l.data(), l.size()) < 0) {}
  }
  void flush_sets(const std::string & dir) {
    for(int k = 0; k < 2; ++k) {
      auto & s = k ? st_ : out_;
      std::string f = dir + (k ? "/st." : "/out.") + std::to_string(getpid());
      FILE * o = fopen(f.c_str(), "wb");
      if(!o) return;
      for(auto h : s) fwrite(&h, 8, 1, o);
      fclose(o);
    }
  }
};

// usage: prog --out DIR --tier T --seed N --budget SEC --workers W [--replay IDX [--sub S]]
inline int main_run(int argc, char ** argv, void (*enumerate)(Ctx &), int chunk = 1) {
  Ctx c;
  std::string out = "/tmp", replay, sub;
  int workers = 8;
  double budget = 1e9;
  for(int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i], v = argv[i + 1];
    if(a == "--out") out = v;
    else if(a == "--tier") c.tier = v;
    else if(a == "--seed") c.seed = strtoull(v.c_str(), 0, 10);
    else if(a == "--budget") budget = atof(v.c_str());
    else if(a == "--workers") workers = atoi(v.c_str());
    else if(a == "--replay") replay = v;
    else if(a == "--sub") sub = v;
    else if(a == "--hang") c.hang_s = atoi(v.c_str());
  }
  c.thorough = c.tier == "thorough";
  double t0 = now();
  c.t_end = t0 + budget;
  std::string log = out + "/log";
  auto describe = [&](uint64_t i) {
    // in a child: enumerating may itself be hostile
    int p[2];
    if(pipe(p)) return std::string();
    fflush(stdout);
    pid_t pid = fork();
    if(pid == 0) {
      alarm(60);
      Shared s{};
      Ctx d = c;
      d.sh_ = &s;
      d.mode_ = Ctx::DESCRIBE;
      d.target_ = i;
      try { enumerate(d); } catch(int) {}
      if(write(p[1], d.desc_.data(), d.desc_.size()) < 0) {}
      _exit(0);
    }
    close(p[1]);
    std::string r;
    char b[4096];
    ssize_t n;
    while((n = read(p[0], b, sizeof b)) > 0) r.append(b, n);
    close(p[0]);
    int st;
    waitpid(pid, &st, 0);
    return r;
  };
  auto spawn = [&](int w, int nw, Shared * sh, bool rp) {
    fflush(stdout);
    pid_t pid = fork();
    if(pid) return pid;
    struct rlimit rl{0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    if(!getenv("MC_VERBOSE")) {
      int nul = open("/dev/null", O_WRONLY);
      dup2(nul, 1);
      std::string ef = out + "/stderr." + std::to_string(w);
      int e = open(ef.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
      dup2(e, 2);
    }
    c.sh_ = sh;
    c.w_ = w;
    c.nw_ = nw;
    c.chunk_ = chunk;
    c.fd_ = open(log.c_str(), O_WRONLY | O_APPEND | O_CREAT, 0644);
    if(rp) {
      c.mode_ = Ctx::REPLAY;
      c.replaying = true;
      c.target_ = strtoull(replay.c_str(), 0, 10);
      c.replay_sub = sub;
    }
    enumerate(c);
    c.end_case();
    c.flush_sets(out);
    _exit(42);
  };
  if(replay.size()) workers = 1;
  Shared * sh = (Shared *)mmap(nullptr, sizeof(Shared) * workers, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::map<pid_t, int> pids;
  for(int w = 0; w < workers; ++w) {
    sh[w].cur = ~0ull;
    pids[spawn(w, workers, &sh[w], replay.size())] = w;
  }
  int crashes = 0;
  FILE * lf = fopen(log.c_str(), "a");
  while(!pids.empty()) {
    int st;
    pid_t p = wait(&st);
    if(p < 0) break;
    auto it = pids.find(p);
    if(it == pids.end()) continue;
    int w = it->second;
    pids.erase(it);
    if(WIFEXITED(st) && WEXITSTATUS(st) == 42) continue;
    uint64_t i = sh[w].cur;
    std::string how = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? "hang" : "crash signal " + std::to_string(WTERMSIG(st)))
                                      : "exit " + std::to_string(WEXITSTATUS(st));
    // first interesting line of stderr
    std::string ef = out + "/stderr." + std::to_string(w), first;
    if(FILE * f = fopen(ef.c_str(), "r")) {
      char b[1000];
      std::string last;
      while(fgets(b, sizeof b, f)) {
        std::string l = b;
        if(l.find("Assertion") != l.npos || l.find("ERROR: AddressSanitizer") != l.npos || l.find("runtime error") != l.npos) { first = l; break; }
        if(l.size() > 1) last = l;
      }
      if(first.empty()) first = last;
      fclose(f);
    }
    for(auto & ch : first) if(ch == '\n' || ch == '\t') ch = ' ';
    std::string key = sh[w].key[0] ? std::string(sh[w].key) : WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? "hang" : "crash";
    if(i != ~0ull) {
      std::string d = describe(i);
      fprintf(lf, "V\t%llu\t%s\t%s\t%s\t%s: %s\n", (unsigned long long)i, sh[w].where, key.c_str(), d.c_str(), how.c_str(), first.c_str());
    }
    else fprintf(lf, "V\t0\t\tharness\t\tworker died outside a case (%s): %s\n", how.c_str(), first.c_str());
    fflush(lf);
    if(++crashes > 200 || replay.size() || i == ~0ull) continue;
    sh[w].cur = ~0ull;
    pids[spawn(w, workers, &sh[w], false)] = w;
  }
  uint64_t ev = 0, stp = 0, ex = 0, cs = 0, sk = 0;
  for(int w = 0; w < workers; ++w) ev += sh[w].evals, stp += sh[w].steps, ex += sh[w].execs, cs += sh[w].cases, sk += sh[w].skipped;
  fprintf(lf, "T\tevals=%llu\tsteps=%llu\texecs=%llu\tcases=%llu\tskipped=%llu\twall=%.3f\n", (unsigned long long)ev,
    (unsigned long long)stp, (unsigned long long)ex, (unsigned long long)cs, (unsigned long long)sk, now() - t0);
  fclose(lf);
  return 0;
}
} // namespace mc
