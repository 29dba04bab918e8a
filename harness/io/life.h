// Lives of processes over a directory that outlives them.
#pragma once
#include "../tree/common.h"
#include "iocase.h"
#include <cmath>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <dirent.h>
using namespace mc;
using std::string; using std::vector;
#ifndef DIM
#define DIM 1
#endif
static const int D = DIM;
enum End { DONE, REFUSED, CRASHED, KILLED };
static const char * END[] = {"completed", "refused", "crashed", "killed"};
static string slurp(const char * f) { std::ifstream s(f); std::stringstream o; o << s.rdbuf(); return o.str(); }
#include "lifebuf.h"
// one job under the simulated MPI; kill: before that change of a file
static End life(Ctx & c, const Life & L, const sim::Sched & sc, vector<LRes> & res, string & err, long kill = -1, long * changes = nullptr) {
  auto & Lb = th::RankLibs<io_entry_t>::get("io" + std::to_string(D), "io_entry");
  for(int i = 0; i < L.n; ++i) Lb.fn[i];
  unlink("res.bin"); unlink("life.err");
  fflush(stdout);
  pid_t pid = fork();
  if(pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    int e = open("life.err", O_WRONLY | O_CREAT | O_TRUNC, 0644);
    dup2(e, 1); dup2(e, 2);
    h5::thaw("store.bin");
    h5::changes = 0; h5::crash_at = kill; h5::crash_file = "store.bin";
    atexit([] { h5::freeze("store.bin"); });
    vector<LRes> r(L.n);
    sim::Result s = sim::run(L.n, sc, [&](int i) { io_entry_t f = Lb.fn[i]; f(i, &L, &r[i]); });
    Buf b;
    b.l(s.ok); b.t(s.key + ": " + s.msg); b.l(s.steps); b.l(h5::changes);
    for(auto & q : r) put(b, q);
    std::ofstream o("res.bin", std::ios::binary);
    o.write(b.s.data(), b.s.size()); o.close();
    h5::freeze("store.bin");
    fflush(stdout);
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  c.exec();
  err = slurp("life.err");
  if(WIFSIGNALED(st)) { err = "signal " + std::to_string(WTERMSIG(st)) + " " + err; return CRASHED; }
  if(WEXITSTATUS(st) == 77) return KILLED;
  std::ifstream f("res.bin", std::ios::binary);
  if(!f) return REFUSED;
  std::stringstream ss; ss << f.rdbuf();
  Buf b; b.s = ss.str();
  bool ok = b.gl(); string m = b.gt(); c.steps(b.gl()); long ch = b.gl();
  if(changes) *changes = ch;
  res.clear();
  for(int i = 0; i < L.n; ++i) res.push_back(getres(b));
  if(!ok) { err = m + " " + err; return CRASHED; }
  return DONE;
}
static sim::Sched plan(int n, int k) { sim::Sched s; for(int i = 0; i < n; ++i) s.prio.push_back(k & 1 ? n - 1 - i : i); s.rendezvous = k & 2; return s; }
static void clear_dir(const string & d) { // files of this case only (scratch)
  if(DIR * p = opendir(d.c_str())) { while(auto e = readdir(p)) { string f = d + "/" + e->d_name; if(e->d_name[0] != '.' && strstr(e->d_name, ".h5part")) unlink(f.c_str()); } closedir(p); }
}
