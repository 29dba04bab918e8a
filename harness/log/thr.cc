#include "thr.h"
#include "sim.h"
#include <cerrno>
#include <dlfcn.h>
#include <map>
#include <memory>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <ctime>
#include <ucontext.h>
#include <unistd.h>
namespace thr {
std::string Sched::str() const { std::string s = eager ? "e" : "l"; for(auto & d : dev) s += " " + std::to_string(d.first) + ":" + std::to_string(d.second); return s; }
struct Th { ucontext_t ctx, back; void * (*fn)(void *); void * arg, * stack; bool done = false, parked = false; pthread_mutex_t * wants = nullptr; pthread_cond_t * sleeps = nullptr; int rank; };
static std::vector<std::unique_ptr<Th>> ths;
static std::vector<void *> spare;
static Th * cur = nullptr;
static bool on = false;
static Sched sc;
static uint32_t np;
static int fixed = -1;
static std::string bad;
static std::map<pthread_mutex_t *, void *> held; // by fiber (nullptr+1+rank: main of the rank)
static int rank() { return fixed >= 0 ? fixed : sim::cur_rank(); }
static void * self() { return cur ? (void *)cur : (void *)(intptr_t)(1 + rank()); }
void begin(const Sched & s, int) { ths.clear(); sc = s; np = 0; on = true; fixed = -1; bad.clear(); held.clear(); cur = nullptr; }
void main_of(int r) { fixed = r; }
bool in_thread() { return cur; }
uint32_t end(std::string & st) {
  on = false;
  for(auto & t : ths) { spare.push_back(t->stack); if(!t->done && bad.empty()) bad = "the thread of process " + std::to_string(t->rank) + " was not ended"; }
  ths.clear();
  st = bad;
  return np;
}
static void back() { Th * t = cur; cur = nullptr; swapcontext(&t->ctx, &t->back); }
static bool can(Th * t) { return !t->done && !(t->wants && held.count(t->wants)) && !t->sleeps; }
static bool step(Th * t) {
  if(!can(t)) return false;
  cur = t;
  swapcontext(&t->back, &t->ctx);
  cur = nullptr;
  return true;
}
static void tramp() { Th * t = cur; t->fn(t->arg); t = cur; t->done = true; back(); }
static std::vector<Th *> mine() { std::vector<Th *> v; for(auto & t : ths) if(t->rank == rank()) v.push_back(t.get()); return v; }
void point() {
  if(!on || cur) return;
  auto v = mine();
  if(v.empty()) return;
  uint32_t k = sc.eager ? 3 : 0;
  if(rank() == 0) { // choices are explored for process 0, which collects the messages
    uint32_t at = np++;
    for(auto & d : sc.dev) if(d.first == at) k = d.second;
  }
  for(auto * t : v) for(uint32_t i = 0; i < k && step(t); ++i);
}
void nap() { if(!on) return; if(cur) back(); else point(); }
static bool run_others() { bool any = false; for(auto * t : mine()) any = step(t) || any; return any; }
} // namespace thr
using namespace thr;
#define X extern "C" __attribute__((visibility("default")))
X int pthread_create(pthread_t * id, const pthread_attr_t * a, void * (*fn)(void *), void * arg) {
  if(!on) { static auto f = (int (*)(pthread_t *, const pthread_attr_t *, void * (*)(void *), void *))dlsym(RTLD_NEXT, "pthread_create"); return f(id, a, fn, arg); }
  auto t = std::make_unique<Th>();
  t->fn = fn; t->arg = arg; t->rank = rank();
  const size_t S = 256 * 1024;
  if(spare.empty()) spare.push_back(mmap(nullptr, S, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
  t->stack = spare.back(); spare.pop_back();
  getcontext(&t->ctx);
  t->ctx.uc_stack.ss_sp = t->stack; t->ctx.uc_stack.ss_size = S; t->ctx.uc_link = nullptr;
  makecontext(&t->ctx, (void (*)())tramp, 0);
  *id = (pthread_t)t.get();
  ths.push_back(std::move(t));
  point();
  return 0;
}
X int pthread_join(pthread_t id, void ** r) {
  if(!on) { static auto f = (int (*)(pthread_t, void **))dlsym(RTLD_NEXT, "pthread_join"); return f(id, r); }
  Th * t = (Th *)id;
  point();
  for(int i = 0; i < 3000 && !t->done; ++i) if(!step(t)) { if(!run_others()) break; }
  if(!t->done) { if(bad.empty()) bad = t->wants ? "waiting for a thread that waits for a lock" : "waiting for a thread that does not end"; }
  return 0;
}
X int pthread_detach(pthread_t) { return 0; }
X int pthread_mutex_lock(pthread_mutex_t * m) {
  if(!on) return 0;
  if(cur) {
    Th * t = cur;
    t->wants = m;
    back(); // resumed when free
    t = cur;
    t->wants = nullptr;
    held[m] = t;
    return 0;
  }
  if(rank() < 0) return 0;
  point();
  for(int i = 0; held.count(m) && i < 1000; ++i) if(!run_others()) break;
  if(held.count(m) && bad.empty()) bad = "a lock that is never released";
  held[m] = self();
  return 0;
}
X int pthread_mutex_trylock(pthread_mutex_t * m) { if(!on) return 0; if(held.count(m)) return EBUSY; held[m] = self(); return 0; }
X int pthread_mutex_unlock(pthread_mutex_t * m) {
  if(!on) return 0;
  held.erase(m);
  if(cur) back();
  else if(rank() >= 0) point();
  return 0;
}
X int usleep(useconds_t u) { if(on) { nap(); return 0; } timespec t{(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return (int)syscall(SYS_nanosleep, &t, nullptr); }
X int nanosleep(const timespec * a, timespec * b) { if(on) { nap(); return 0; } return (int)syscall(SYS_nanosleep, a, b); }
X int clock_nanosleep(clockid_t c, int f, const timespec * a, timespec * b) { if(on) { nap(); return 0; } return (int)syscall(SYS_clock_nanosleep, c, f, a, b); }
X int sched_yield() { if(on) nap(); return 0; }
X int pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m) {
  if(!on) return 0;
  held.erase(m);
  if(cur) { Th * t = cur; t->sleeps = c; t->wants = m; back(); t = cur; t->wants = nullptr; held[m] = t; }
  else { for(int i = 0; i < 1000; ++i) if(!run_others()) break; held[m] = self(); }
  return 0;
}
X int pthread_cond_timedwait(pthread_cond_t *, pthread_mutex_t * m, const timespec *) { // may time out at once
  if(!on) return ETIMEDOUT;
  held.erase(m);
  if(cur) { Th * t = cur; t->wants = m; back(); t = cur; t->wants = nullptr; held[m] = t; }
  else { point(); held[m] = self(); }
  return ETIMEDOUT;
}
X int pthread_cond_clockwait(pthread_cond_t * c, pthread_mutex_t * m, clockid_t, const timespec * t) { return pthread_cond_timedwait(c, m, t); }
X int pthread_cond_signal(pthread_cond_t * c) { if(on) for(auto & t : ths) if(t->sleeps == c) { t->sleeps = nullptr; break; } return 0; }
X int pthread_cond_broadcast(pthread_cond_t * c) { if(on) for(auto & t : ths) if(t->sleeps == c) t->sleeps = nullptr; return 0; }
X time_t time(time_t * t) { time_t v = on ? FIXED_TIME : (time_t)syscall(SYS_time, nullptr); if(t) *t = v; return v; }
static long S = 1000, U = 0;
X void LOG_stamp(long s, long u) { S = s; U = u; }
X int gettimeofday(timeval * t, void *) { if(on) { t->tv_sec = S; t->tv_usec = U; return 0; } return (int)syscall(SYS_gettimeofday, t, nullptr); }
