// Simulated MPI with a controlled scheduler. See sim.h / DESIGN.md.
#include "mpi.h"
#include "sim.h"
#include <algorithm>
#include <cassert>
#include <csetjmp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <new>
#include <sstream>
#include <malloc.h>
#include <sys/mman.h>
#include <ucontext.h>

namespace sim {
std::string Sched::str() const {
  std::ostringstream o;
  o << "p";
  for(size_t i = 0; i < prio.size(); ++i) o << (i ? "." : "") << prio[i];
  o << (rendezvous ? "/r" : "/e") << (rr ? "r" : "b") << "/";
  for(size_t i = 0; i < dev.size(); ++i)
    o << (i ? "," : "") << dev[i].first << ":" << dev[i].second;
  return o.str();
}
Sched Sched::parse(const std::string & t) {
  Sched s;
  std::istringstream in(t);
  std::string a, b, c;
  std::getline(in, a, '/');
  std::getline(in, b, '/');
  std::getline(in, c, '/');
  if(a.size()) {
    std::istringstream x(a.substr(1));
    std::string e;
    while(std::getline(x, e, '.')) s.prio.push_back(atoi(e.c_str()));
  }
  if(b.size() >= 2) s.rendezvous = b[0] == 'r', s.rr = b[1] == 'r';
  std::istringstream x(c);
  std::string e;
  while(std::getline(x, e, ',')) {
    auto k = e.find(':');
    s.dev.push_back({(uint32_t)atoi(e.c_str()), (uint32_t)atoi(e.c_str() + k + 1)});
  }
  return s;
}
bool track_frees = true;

static inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  return h ^ (h >> 32);
}
static uint64_t hbytes(const void * p, size_t n) {
  uint64_t h = 0xcbf29ce484222325ull;
  const unsigned char * c = (const unsigned char *)p;
  while(n >= 8) {
    uint64_t v;
    memcpy(&v, c, 8);
    h = (h ^ v) * 0x9FB21C651E98DF25ull;
    h ^= h >> 29;
    c += 8;
    n -= 8;
  }
  for(size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 0x100000001b3ull;
  return h;
}

struct Req;
struct Msg {
  int src, dst, tag, comm; // world ranks
  size_t bytes;
  std::vector<char> data;  // eager copy
  const char * buf = nullptr; // late capture
  uint64_t hash = 0;
  int req = -1;            // sender's request (rendezvous)
  bool late = false;
  uint64_t seq;
};
struct Req {
  bool used = false, complete = false, is_send = false, freed = false, is_coll = false;
  int owner = -1;
  // receive
  char * rbuf = nullptr;
  size_t rbytes = 0;
  int src, tag, comm;
  MPI_Status st{};
  const char * sbuf = nullptr;
  size_t sbytes = 0;
  int collid = -1;
};
struct TypeInfo { size_t size, extent; };
struct Coll {
  int op = 0, root = 0;
  int arrived = 0, left = 0;
  bool done = false;
  struct Arg {
    const void * sb = nullptr; void * rb = nullptr;
    size_t sbytes = 0, rbytes = 0;
    std::vector<size_t> sc, sd, rc, rd;
    int dt = 0, opn = 0, count = 0, color = 0, key = 0, outcomm = 0;
    bool present = false;
  };
  std::vector<Arg> a;
};
struct CommInfo { std::vector<int> ranks; };

struct Rank {
  ucontext_t ctx;
  bool started = false, finished = false;
  std::function<bool()> blocked; // predicate to become enabled
  bool is_blocked = false;
  bool spinning = false;
  uint64_t spin_event = 0;
  uint64_t falsepolls = 0;
  uint64_t hist = 0;
  std::map<int, int> collseq;
  const char * what = "";
};

struct World {
  int n = 0;
  Sched sched;
  std::vector<Rank> r;
  std::deque<Msg> msgs; // posted, unmatched, in post order
  std::vector<Req> reqs;
  std::deque<int> posted; // unmatched receives in post order
  std::map<std::pair<int, int>, std::unique_ptr<Coll>> colls;
  std::vector<CommInfo> comms;
  std::map<std::pair<int,int>, int> newcomms;
  ucontext_t main;
  int cur = -1;
  uint64_t event = 1, seq = 0;
  uint32_t choice = 0;
  size_t devpos = 0;
  Result res;
  bool stop = false;
  uint64_t max_steps;
  const std::function<void(int)> * fn;
  const std::function<void(uint64_t)> * sink = nullptr;
  int rrlast = 0;
};
static World * W = nullptr;
static std::vector<TypeInfo> dtypes;
static std::vector<MPI_User_function *> userops;
static std::vector<char *> stacks;
static const size_t STK = 2u << 20;

bool active() { return W != nullptr; }
int cur_rank() { return W ? W->cur : 0; }
int cur_size() { return W ? W->n : 1; }

static TypeInfo tinfo(int t) {
  switch(t) {
    case MPI_CHAR: case MPI_SIGNED_CHAR: case MPI_UNSIGNED_CHAR: case MPI_BYTE:
    case MPI_INT8_T: case MPI_UINT8_T: case MPI_C_BOOL: case MPI_CXX_BOOL: return {1, 1};
    case MPI_SHORT: case MPI_UNSIGNED_SHORT: case MPI_INT16_T: case MPI_UINT16_T: return {2, 2};
    case MPI_INT: case MPI_UNSIGNED: case MPI_FLOAT: case MPI_INT32_T: case MPI_UINT32_T: return {4, 4};
    case MPI_LONG: case MPI_UNSIGNED_LONG: case MPI_LONG_LONG_INT: case MPI_UNSIGNED_LONG_LONG:
    case MPI_DOUBLE: case MPI_INT64_T: case MPI_UINT64_T: case MPI_2INT: case MPI_FLOAT_INT:
    case MPI_AINT: case MPI_OFFSET: case MPI_COUNT: return {8, 8};
    case MPI_LONG_DOUBLE: return {16, 16};
    case MPI_DOUBLE_INT: case MPI_LONG_INT: return {16, 16};
  }
  int i = t - SIM_TYPE_FIRST_DERIVED;
  if(i >= 0 && i < (int)dtypes.size()) return dtypes[i];
  return {0, 0};
}

[[noreturn]] static void die_in_fiber();
static void violate(const std::string & key, const std::string & msg) {
  if(W->res.ok) {
    W->res.ok = false;
    W->res.key = key;
    W->res.msg = "rank " + std::to_string(W->cur) + ": " + msg;
  }
  W->stop = true;
}
[[noreturn]] static void violate_here(const std::string & key, const std::string & msg) {
  violate(key, msg);
  die_in_fiber();
}
static void die_in_fiber() {
  // abandon this fiber for good
  setcontext(&W->main);
  abort();
}
static void need_active(const char * f) {
  if(!W || W->cur < 0) {
    fprintf(stderr, "simmpi: %s called outside a simulated rank\n", f);
    abort();
  }
}

static bool enabled(int i) {
  Rank & k = W->r[i];
  if(k.finished) return false;
  if(k.is_blocked) return k.blocked();
  return true;
}
static uint64_t global_hash() {
  uint64_t h = 1469598103934665603ull;
  for(auto & k : W->r) h = mix(h, k.hist);
  return h;
}
static uint32_t choose(uint32_t n) {
  if(n <= 1) return 0;
  if(W->sink && *W->sink) (*W->sink)(global_hash());
  uint32_t idx = W->choice++;
  W->res.nopt.push_back((uint8_t)std::min(n, 255u));
  if(W->devpos < W->sched.dev.size() && W->sched.dev[W->devpos].first == idx) {
    uint32_t o = W->sched.dev[W->devpos++].second;
    return o < n ? o : 0;
  }
  return 0;
}
static int pos_of(int rank) {
  for(size_t i = 0; i < W->sched.prio.size(); ++i)
    if(W->sched.prio[i] == rank) return (int)i;
  return rank;
}
// Ordered list of runnable ranks; default first.
static std::vector<int> runnable(bool current_first) {
  std::vector<int> act, spin;
  for(int i = 0; i < W->n; ++i) {
    if(!enabled(i)) continue;
    Rank & k = W->r[i];
    if(k.spinning && k.spin_event == W->event) spin.push_back(i);
    else act.push_back(i);
  }
  int c = W->cur;
  auto cmp = [&](int a, int b) {
    if(W->sched.rr) {
      int n = W->n, x = (a - W->rrlast - 1 + 2 * n) % n, y = (b - W->rrlast - 1 + 2 * n) % n;
      return x < y;
    }
    if(current_first && (a == c || b == c)) return a == c && b != c;
    return pos_of(a) < pos_of(b);
  };
  std::sort(act.begin(), act.end(), cmp);
  // spinning ranks: fair rotation so that polling loops make progress
  std::sort(spin.begin(), spin.end(), [&](int a, int b) {
    if(W->r[a].falsepolls != W->r[b].falsepolls) return W->r[a].falsepolls < W->r[b].falsepolls;
    return pos_of(a) < pos_of(b);
  });
  act.insert(act.end(), spin.begin(), spin.end());
  return act;
}
static void switch_to(int t) {
  int me = W->cur;
  if(t == me) return;
  W->rrlast = t;
  W->cur = t;
  swapcontext(&W->r[me].ctx, &W->r[t].ctx);
  // back: W->cur == me
}
static void step_count(const char * what) {
  W->r[W->cur].what = what;
  if(++W->res.steps > W->max_steps)
    violate_here("livelock", "no termination after " + std::to_string(W->max_steps) + " operations");
  if(W->stop) die_in_fiber();
}
// A scheduling point before an operation of an enabled rank.
static void point(const char * what) {
  step_count(what);
  auto l = runnable(true);
  uint32_t o = choose((uint32_t)l.size());
  switch_to(l[o]);
  if(W->stop) die_in_fiber();
}
static std::string describe() {
  std::ostringstream o;
  for(int i = 0; i < W->n; ++i) {
    Rank & k = W->r[i];
    o << " r" << i << (k.finished ? ":finished" : k.is_blocked ? ":blocked in " : ":in ") << (k.finished ? "" : k.what);
  }
  o << "; unmatched:";
  for(auto & m : W->msgs) o << " " << m.src << "->" << m.dst << " tag " << m.tag << " (" << m.bytes << "B)";
  return o.str();
}
// Give up the processor; resumes when scheduled again.
static void reschedule() {
  auto l = runnable(false);
  if(l.empty()) violate_here("deadlock", "no rank can continue:" + describe());
  uint32_t o = choose((uint32_t)l.size());
  switch_to(l[o]);
  if(W->stop) die_in_fiber();
}
static void block_until(const char * what, std::function<bool()> pred) {
  step_count(what);
  Rank & k = W->r[W->cur];
  if(!pred()) {
    k.blocked = pred;
    k.is_blocked = true;
    k.what = what;
    reschedule();
    k.is_blocked = false;
    k.blocked = nullptr;
  }
}
static void spin_yield(const char * what) {
  Rank & k = W->r[W->cur];
  k.what = what;
  bool same = k.spinning && k.spin_event == W->event;
  k.falsepolls = same ? k.falsepolls + 1 : 1;
  k.spinning = true;
  k.spin_event = W->event;
  // livelock: everybody alive is blocked or has polled many times with no event
  bool all = true;
  for(int i = 0; i < W->n; ++i) {
    Rank & q = W->r[i];
    if(q.finished) continue;
    if(q.is_blocked) { if(q.blocked()) all = false; continue; }
    if(!(q.spinning && q.spin_event == W->event && q.falsepolls > 3000)) all = false;
  }
  if(all) violate_here("livelock", "all ranks poll without progress:" + describe());
  reschedule();
}
static void hist(uint64_t v) { W->r[W->cur].hist = mix(W->r[W->cur].hist, v); }

static int newreq() {
  W->reqs.emplace_back();
  Req & q = W->reqs.back();
  q.used = true;
  q.owner = W->cur;
  return (int)W->reqs.size() - 1;
}
static Req & getreq(int id, const char * f) {
  if(id < 0 || id >= (int)W->reqs.size() || W->reqs[id].freed || W->reqs[id].owner != W->cur)
    violate_here("invalid-request", std::string(f) + " on an invalid or already completed request");
  return W->reqs[id];
}
static CommInfo & comm(int c) {
  if(c <= 0 || c >= (int)W->comms.size() || W->comms[c].ranks.empty())
    if(c != MPI_COMM_SELF) violate_here("invalid-comm", "invalid communicator");
  if(c == MPI_COMM_SELF) { W->comms[2].ranks = {W->cur}; }
  return W->comms[c];
}
static int myrank(int c) {
  auto & k = comm(c);
  for(size_t i = 0; i < k.ranks.size(); ++i) if(k.ranks[i] == W->cur) return (int)i;
  return MPI_UNDEFINED;
}
static int toworld(int c, int r, const char * f) {
  auto & k = comm(c);
  if(r < 0 || r >= (int)k.ranks.size())
    violate_here("invalid-rank", std::string(f) + ": rank " + std::to_string(r) + " is not in the communicator");
  return k.ranks[r];
}
static int tocomm(int c, int w) {
  auto & k = W->comms[c];
  for(size_t i = 0; i < k.ranks.size(); ++i) if(k.ranks[i] == w) return (int)i;
  return -1;
}

static bool matches(const Msg & m, int dst, int src, int tag, int c) {
  return m.dst == dst && m.comm == c && (src == MPI_ANY_SOURCE || m.src == src) &&
         (tag == MPI_ANY_TAG || m.tag == tag);
}
static void set_status(MPI_Status * st, int src, int tag, size_t bytes) {
  if(!st) return;
  st->MPI_SOURCE = src;
  st->MPI_TAG = tag;
  st->MPI_ERROR = MPI_SUCCESS;
  st->sim_cancelled = 0;
  st->sim_bytes = bytes;
}
// Deliver message at index i into buffer.
static void deliver(std::deque<Msg>::iterator it, char * buf, size_t cap, MPI_Status * st) {
  Msg & m = *it;
  const char * p = m.late ? m.buf : m.data.data();
  if(m.late && m.bytes && hbytes(m.buf, m.bytes) != m.hash)
    violate("send-buffer-modified", "a send buffer changed before its message was taken (" +
      std::to_string(m.src) + "->" + std::to_string(m.dst) + " tag " + std::to_string(m.tag) + ")");
  if(m.bytes > cap)
    violate("truncated", "message of " + std::to_string(m.bytes) + "B (" + std::to_string(m.src) + "->" +
      std::to_string(m.dst) + " tag " + std::to_string(m.tag) + ") into a buffer of " + std::to_string(cap) + "B");
  else if(m.bytes) memcpy(buf, p, m.bytes);
  set_status(st, tocomm(m.comm, m.src), m.tag, m.bytes);
  if(m.req >= 0) W->reqs[m.req].complete = true;
  W->r[m.dst].hist = mix(W->r[m.dst].hist, mix(m.src * 1000003ull + m.tag, mix(m.bytes, m.hash)));
  W->event++;
  W->msgs.erase(it);
  if(W->stop && W->cur >= 0) die_in_fiber();
}
static int post_send(const void * buf, size_t bytes, int dst, int tag, int c, bool sync, int * req) {
  Msg m;
  m.src = W->cur; m.dst = dst; m.tag = tag; m.comm = c; m.bytes = bytes;
  m.hash = bytes ? hbytes(buf, bytes) : 0;
  m.seq = W->seq++;
  int rq = -1;
  bool late = sync || W->sched.rendezvous;
  rq = newreq();
  Req & q = W->reqs[rq];
  q.is_send = true; q.sbuf = (const char *)buf; q.sbytes = bytes;
  q.tag = tag; q.src = dst; q.comm = c;
  m.late = late;
  if(late) { m.buf = (const char *)buf; m.req = rq; }
  else { m.data.assign((const char *)buf, (const char *)buf + bytes); q.complete = true; }
  if(req) *req = rq;
  hist(mix(0x51, mix(dst * 131 + tag, mix(bytes, m.hash))));
  W->event++;
  W->msgs.push_back(std::move(m));
  // match a posted receive
  auto it = std::prev(W->msgs.end());
  for(auto p = W->posted.begin(); p != W->posted.end(); ++p) {
    Req & k = W->reqs[*p];
    if(matches(*it, k.owner, k.src, k.tag, k.comm)) {
      int id = *p;
      W->posted.erase(p);
      W->reqs[id].complete = true;
      deliver(it, W->reqs[id].rbuf, W->reqs[id].rbytes, &W->reqs[id].st);
      break;
    }
  }
  return rq;
}
// candidate messages: first matching of every source, in arrival order
static std::vector<std::deque<Msg>::iterator> candidates(int src, int tag, int c) {
  std::vector<std::deque<Msg>::iterator> v;
  for(auto it = W->msgs.begin(); it != W->msgs.end(); ++it) {
    if(!matches(*it, W->cur, src, tag, c)) continue;
    bool seen = false;
    for(auto & o : v) if(o->src == it->src) seen = true;
    if(!seen) v.push_back(it);
  }
  return v;
}
static int post_recv(void * buf, size_t cap, int src, int tag, int c) {
  int rq = newreq();
  Req & q = W->reqs[rq];
  q.rbuf = (char *)buf; q.rbytes = cap; q.src = src; q.tag = tag; q.comm = c;
  auto v = candidates(src, tag, c);
  if(!v.empty()) {
    uint32_t o = choose((uint32_t)v.size());
    q.complete = true;
    deliver(v[o], q.rbuf, q.rbytes, &W->reqs[rq].st);
  }
  else W->posted.push_back(rq);
  return rq;
}
static void finish_req(MPI_Request * h, MPI_Status * st) {
  Req & q = W->reqs[*h];
  if(st) {
    if(q.is_send || q.is_coll) set_status(st, MPI_ANY_SOURCE, MPI_ANY_TAG, 0);
    else *st = q.st;
  }
  q.freed = true;
  *h = MPI_REQUEST_NULL;
}

static void fiber_main(int i) {
  (*W->fn)(i);
  W->r[i].finished = true;
  W->event++;
  hist(0xF1);
  // pick someone else or return to the explorer
  bool alive = false;
  for(auto & k : W->r) if(!k.finished) alive = true;
  if(!alive) { setcontext(&W->main); }
  auto l = runnable(false);
  if(l.empty()) {
    violate("deadlock", "no rank can continue:" + describe());
    setcontext(&W->main);
  }
  uint32_t o = choose((uint32_t)l.size());
  W->cur = l[o];
  W->rrlast = l[o];
  setcontext(&W->r[l[o]].ctx);
}

static std::string outstanding() {
  std::ostringstream o;
  for(auto & m : W->msgs)
    o << " message " << m.src << "->" << m.dst << " tag " << m.tag << " (" << m.bytes << "B) never received;";
  for(auto & q : W->reqs)
    if(!q.freed && !q.complete) o << " incomplete request of rank " << q.owner << ";";
  return o.str();
}

Result run(int n, const Sched & s, const std::function<void(int)> & fn,
  const std::function<void(uint64_t)> & sink, uint64_t max_steps) {
  World w;
  w.n = n;
  w.sched = s;
  if(w.sched.prio.empty()) for(int i = 0; i < n; ++i) w.sched.prio.push_back(i);
  w.r.resize(n);
  w.max_steps = max_steps;
  w.fn = &fn;
  w.sink = &sink;
  w.comms.resize(3);
  for(int i = 0; i < n; ++i) w.comms[1].ranks.push_back(i);
  w.comms[2].ranks = {0};
  W = &w;
  dtypes.clear();
  userops.clear();
  while((int)stacks.size() < n) {
    char * p = (char *)mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    mprotect(p, 4096, PROT_NONE);
    stacks.push_back(p);
  }
  for(int i = 0; i < n; ++i) {
    getcontext(&w.r[i].ctx);
    w.r[i].ctx.uc_stack.ss_sp = stacks[i];
    w.r[i].ctx.uc_stack.ss_size = STK;
    w.r[i].ctx.uc_link = &w.main;
    w.r[i].hist = mix(i, n);
    makecontext(&w.r[i].ctx, (void (*)())fiber_main, 1, i);
  }
  volatile bool entered = false;
  getcontext(&w.main);
  if(!entered) {
    entered = true;
    w.cur = -1;
    auto l = runnable(false);
    uint32_t o = choose((uint32_t)l.size());
    w.cur = l[o];
    w.rrlast = l[o];
    setcontext(&w.r[l[o]].ctx);
  }
  w.cur = -1;
  if(w.res.ok) {
    std::string o = outstanding();
    if(!o.empty()) {
      w.res.ok = false;
      w.res.key = "leak";
      w.res.msg = "at the end:" + o;
    }
  }
  w.res.finalhash = global_hash();
  Result r = w.res;
  W = nullptr;
  return r;
}

// ---------------------------------------------------------------- collectives
enum { C_BARRIER = 1, C_BCAST, C_REDUCE, C_ALLREDUCE, C_GATHERV, C_SCATTERV, C_ALLGATHERV, C_ALLTOALLV, C_SCAN, C_EXSCAN, C_SPLIT, C_QUIET };
static const char * cname(int o) {
  static const char * n[] = {"?", "Barrier", "Bcast", "Reduce", "Allreduce", "Gather", "Scatter", "Allgather", "Alltoall", "Scan", "Exscan", "Comm_split", "quiescence"};
  return n[o];
}
template<class T> static void red1(int op, T & a, const T & b) {
  switch(op) {
    case MPI_SUM: a = a + b; break;
    case MPI_PROD: a = a * b; break;
    case MPI_MIN: a = b < a ? b : a; break;
    case MPI_MAX: a = a < b ? b : a; break;
    case MPI_LAND: a = (T)(a && b); break;
    case MPI_LOR: a = (T)(a || b); break;
    case MPI_LXOR: a = (T)(!a != !b); break;
    default: violate("invalid-op", "operation not valid for this type");
  }
}
template<class T> static void redi(int op, T & a, const T & b) {
  switch(op) {
    case MPI_BAND: a = a & b; break;
    case MPI_BOR: a = a | b; break;
    case MPI_BXOR: a = a ^ b; break;
    default: red1(op, a, b);
  }
}
template<class P> static void redloc(int op, P & a, const P & b) {
  if(op == MPI_MINLOC) { if(b.v < a.v || (b.v == a.v && b.i < a.i)) a = b; }
  else if(op == MPI_MAXLOC) { if(a.v < b.v || (b.v == a.v && b.i < a.i)) a = b; }
  else violate("invalid-op", "operation not valid for pair types");
}
template<class T> struct PairT { T v; int i; };
static void reduce_into(int dt, int op, int count, void * acc, const void * in) {
  if(op >= SIM_OP_FIRST_USER) {
    int i = op - SIM_OP_FIRST_USER;
    // user ops compute inout = in op inout
    int c = count; MPI_Datatype d = dt;
    size_t nb = tinfo(dt).extent * count;
    std::vector<char> tmp((const char *)in, (const char *)in + nb);
    std::vector<char> a2((char *)acc, (char *)acc + nb);
    memcpy(acc, tmp.data(), nb);
    userops[i](a2.data(), acc, &c, &d);
    return;
  }
#define R(T, F) for(int i = 0; i < count; ++i) F(op, ((T *)acc)[i], ((const T *)in)[i]); break
  switch(dt) {
    case MPI_CHAR: case MPI_SIGNED_CHAR: case MPI_INT8_T: R(int8_t, redi);
    case MPI_UNSIGNED_CHAR: case MPI_BYTE: case MPI_UINT8_T: R(uint8_t, redi);
    case MPI_C_BOOL: case MPI_CXX_BOOL: R(bool, redi);
    case MPI_SHORT: case MPI_INT16_T: R(int16_t, redi);
    case MPI_UNSIGNED_SHORT: case MPI_UINT16_T: R(uint16_t, redi);
    case MPI_INT: case MPI_INT32_T: R(int32_t, redi);
    case MPI_UNSIGNED: case MPI_UINT32_T: R(uint32_t, redi);
    case MPI_LONG: case MPI_LONG_LONG_INT: case MPI_INT64_T: case MPI_AINT: case MPI_OFFSET: case MPI_COUNT: R(int64_t, redi);
    case MPI_UNSIGNED_LONG: case MPI_UNSIGNED_LONG_LONG: case MPI_UINT64_T: R(uint64_t, redi);
    case MPI_FLOAT: R(float, red1);
    case MPI_DOUBLE: R(double, red1);
    case MPI_LONG_DOUBLE: R(long double, red1);
    case MPI_DOUBLE_INT: R(PairT<double>, redloc);
    case MPI_FLOAT_INT: R(PairT<float>, redloc);
    case MPI_2INT: R(PairT<int>, redloc);
    case MPI_LONG_INT: R(PairT<long>, redloc);
    default: violate("invalid-op", "reduction on a derived datatype");
  }
#undef R
}
static void copyb(void * d, const void * s, size_t n) { if(n && d != s) memmove(d, s, n); }

static void perform(Coll & k, int c) {
  auto & ranks = W->comms[c].ranks;
  int n = (int)ranks.size();
  auto bad = [&](const std::string & m) { violate("collective-mismatch", std::string(cname(k.op)) + ": " + m); };
  switch(k.op) {
    case C_BARRIER: break;
    case C_QUIET: {
      std::string o = outstanding();
      // the quiescence marker itself uses no request
      if(!o.empty()) violate("leak", "phase left behind:" + o);
      break;
    }
    case C_BCAST:
      for(int i = 0; i < n; ++i) {
        if(k.a[i].rbytes != k.a[k.root].rbytes) return bad("sizes differ");
        copyb(k.a[i].rb, k.a[k.root].rb, k.a[i].rbytes);
      }
      break;
    case C_REDUCE: case C_ALLREDUCE: case C_SCAN: case C_EXSCAN: {
      size_t nb = k.a[0].sbytes;
      std::vector<char> acc, prev;
      std::vector<std::vector<char>> in(n);
      for(int i = 0; i < n; ++i) {
        if(k.a[i].sbytes != nb || k.a[i].opn != k.a[0].opn) return bad("counts or operations differ");
        const char * p = (const char *)(k.a[i].sb == MPI_IN_PLACE ? k.a[i].rb : k.a[i].sb);
        if(nb) in[i].assign(p, p + nb);
      }
      for(int i = 0; i < n; ++i) {
        prev = acc;
        if(i == 0) acc = in[0];
        else reduce_into(k.a[i].dt, k.a[i].opn, k.a[i].count, acc.data(), in[i].data());
        if(k.op == C_SCAN) copyb(k.a[i].rb, acc.data(), nb);
        if(k.op == C_EXSCAN && i > 0) copyb(k.a[i].rb, prev.data(), nb);
      }
      if(k.op == C_REDUCE) copyb(k.a[k.root].rb, acc.data(), nb);
      if(k.op == C_ALLREDUCE) for(int i = 0; i < n; ++i) copyb(k.a[i].rb, acc.data(), nb);
      break;
    }
    case C_GATHERV: {
      auto & r = k.a[k.root];
      for(int i = 0; i < n; ++i) {
        if(k.a[i].sb == MPI_IN_PLACE) continue;
        if(k.a[i].sbytes > r.rc[i]) return bad("more data sent than received for");
        if(k.a[i].sbytes != r.rc[i]) return bad("counts differ");
        copyb((char *)r.rb + r.rd[i], k.a[i].sb, k.a[i].sbytes);
      }
      break;
    }
    case C_SCATTERV: {
      auto & r = k.a[k.root];
      for(int i = 0; i < n; ++i) {
        if(k.a[i].rb == MPI_IN_PLACE) continue;
        if(k.a[i].rbytes != r.sc[i]) return bad("counts differ");
        copyb(k.a[i].rb, (const char *)r.sb + r.sd[i], r.sc[i]);
      }
      break;
    }
    case C_ALLGATHERV: {
      std::vector<std::vector<char>> in(n);
      for(int i = 0; i < n; ++i) {
        if(k.a[i].sb == MPI_IN_PLACE) {
          const char * p = (const char *)k.a[i].rb + k.a[i].rd[i];
          in[i].assign(p, p + k.a[i].rc[i]);
        }
        else if(k.a[i].sbytes) in[i].assign((const char *)k.a[i].sb, (const char *)k.a[i].sb + k.a[i].sbytes);
      }
      for(int i = 0; i < n; ++i)
        for(int j = 0; j < n; ++j) {
          if(in[j].size() != k.a[i].rc[j]) return bad("rank " + std::to_string(i) + " expects " + std::to_string(k.a[i].rc[j]) + "B from " + std::to_string(j) + " which sends " + std::to_string(in[j].size()));
          copyb((char *)k.a[i].rb + k.a[i].rd[j], in[j].data(), in[j].size());
        }
      break;
    }
    case C_ALLTOALLV: {
      std::vector<std::vector<std::vector<char>>> in(n, std::vector<std::vector<char>>(n));
      for(int i = 0; i < n; ++i)
        for(int j = 0; j < n; ++j) {
          const char * p; size_t b;
          if(k.a[i].sb == MPI_IN_PLACE) { p = (const char *)k.a[i].rb + k.a[i].rd[j]; b = k.a[i].rc[j]; }
          else { p = (const char *)k.a[i].sb + k.a[i].sd[j]; b = k.a[i].sc[j]; }
          if(b) in[i][j].assign(p, p + b);
        }
      for(int i = 0; i < n; ++i)
        for(int j = 0; j < n; ++j) {
          if(in[j][i].size() != k.a[i].rc[j]) return bad("rank " + std::to_string(i) + " expects " + std::to_string(k.a[i].rc[j]) + "B from " + std::to_string(j) + " which sends " + std::to_string(in[j][i].size()));
          copyb((char *)k.a[i].rb + k.a[i].rd[j], in[j][i].data(), in[j][i].size());
        }
      break;
    }
    case C_SPLIT: {
      std::map<int, std::vector<std::pair<int, int>>> g;
      for(int i = 0; i < n; ++i) if(k.a[i].color != MPI_UNDEFINED) g[k.a[i].color].push_back({k.a[i].key, i});
      for(auto & e : g) {
        std::stable_sort(e.second.begin(), e.second.end());
        CommInfo ci;
        for(auto & x : e.second) ci.ranks.push_back(ranks[x.second]);
        W->comms.push_back(ci);
        for(auto & x : e.second) k.a[x.second].outcomm = (int)W->comms.size() - 1;
      }
      break;
    }
  }
}
static Coll::Arg & enter(int c, int op, int root, std::pair<int, int> & id, Coll *& kk) {
  need_active(cname(op));
  step_count(cname(op));
  int me = myrank(c);
  if(me < 0) violate_here("invalid-comm", "not a member of the communicator");
  int s = W->r[W->cur].collseq[c]++;
  id = {c == MPI_COMM_SELF ? -1000 - W->cur : c, s};
  auto & p = W->colls[id];
  if(!p) {
    p = std::make_unique<Coll>();
    p->op = op;
    p->root = root;
    p->a.resize(comm(c).ranks.size());
  }
  kk = p.get();
  if(p->op != op || p->root != root)
    violate_here("collective-mismatch", std::string("ranks disagree: ") + cname(op) + " vs " + cname(p->op));
  p->arrived++;
  p->a[me].present = true;
  hist(mix(0xC0 + op, s));
  return p->a[me];
}
static void leave(int c, std::pair<int, int> id, Coll * k) {
  int n = (int)comm(c).ranks.size();
  if(k->arrived == n && !k->done) {
    perform(*k, c);
    k->done = true;
    W->event++;
    if(W->stop) die_in_fiber();
    // everybody may continue now: who goes first is a choice
    if(n > 1) { auto l = runnable(false); uint32_t o = choose((uint32_t)l.size()); switch_to(l[o]); if(W->stop) die_in_fiber(); }
  }
  else block_until(cname(k->op), [k] { return k->done; });
  if(++k->left == n) W->colls.erase(id);
}

} // namespace sim
using namespace sim;

static size_t B(int count, MPI_Datatype t, const char * f) {
  TypeInfo i = tinfo(t);
  if(i.size == 0 && i.extent == 0) violate_here("invalid-type", std::string(f) + ": invalid datatype");
  if(count < 0) violate_here("invalid-count", std::string(f) + ": negative count");
  return i.extent * (size_t)count;
}

extern "C" {
int MPI_Init(int *, char ***) { return 0; }
int MPI_Init_thread(int *, char ***, int r, int * p) { if(p) *p = r; return 0; }
int MPI_Initialized(int * f) { *f = 1; return 0; }
int MPI_Finalized(int * f) { *f = 0; return 0; }
int MPI_Finalize(void) { return 0; }
int MPI_Query_thread(int * p) { *p = MPI_THREAD_MULTIPLE; return 0; }
int MPI_Abort(MPI_Comm, int code) {
  if(!W) abort();
  violate_here("abort", "MPI_Abort called with code " + std::to_string(code));
}
int MPI_Get_processor_name(char * n, int * l) { strcpy(n, "sim"); *l = 3; return 0; }
double MPI_Wtime(void) { return W ? 1e-6 * W->res.steps : 0.; }
double MPI_Wtick(void) { return 1e-6; }
int MPI_Comm_rank(MPI_Comm c, int * r) { *r = W ? myrank(c) : 0; return 0; }
int MPI_Comm_size(MPI_Comm c, int * r) { *r = W ? (int)comm(c).ranks.size() : 1; return 0; }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm * o) { return MPI_Comm_split(c, 0, 0, o); }
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm * o) {
  std::pair<int, int> id; Coll * k;
  auto & a = enter(c, C_SPLIT, 0, id, k);
  a.color = color; a.key = key;
  int me = myrank(c);
  auto hold = k;
  // result must be read before the collective is erased
  int n = (int)comm(c).ranks.size();
  if(k->arrived == n) { perform(*k, c); k->done = true; W->event++; }
  else block_until("Comm_split", [hold] { return hold->done; });
  *o = color == MPI_UNDEFINED ? MPI_COMM_NULL : k->a[me].outcomm;
  if(++k->left == n) W->colls.erase(id);
  return 0;
}
int MPI_Comm_free(MPI_Comm * c) { *c = MPI_COMM_NULL; return 0; }
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; }
int MPI_Error_string(int, char * s, int * l) { strcpy(s, "error"); *l = 5; return 0; }
int MPI_Type_size(MPI_Datatype t, int * s) { *s = (int)tinfo(t).size; return 0; }
int MPI_Type_get_extent(MPI_Datatype t, MPI_Aint * lb, MPI_Aint * e) { *lb = 0; *e = (MPI_Aint)tinfo(t).extent; return 0; }
static int addtype(size_t s, size_t e, MPI_Datatype * o) {
  dtypes.push_back({s, e});
  *o = SIM_TYPE_FIRST_DERIVED + (int)dtypes.size() - 1;
  return 0;
}
int MPI_Type_contiguous(int n, MPI_Datatype t, MPI_Datatype * o) { TypeInfo i = tinfo(t); return addtype(i.size * n, i.extent * n, o); }
int MPI_Type_vector(int n, int bl, int st, MPI_Datatype t, MPI_Datatype * o) {
  TypeInfo i = tinfo(t);
  return addtype(i.size * n * bl, i.extent * ((n - 1) * st + bl), o);
}
int MPI_Type_create_struct(int n, const int * bl, const MPI_Aint * d, const MPI_Datatype * t, MPI_Datatype * o) {
  size_t s = 0, e = 0;
  for(int i = 0; i < n; ++i) { TypeInfo q = tinfo(t[i]); s += q.size * bl[i]; e = std::max(e, (size_t)d[i] + q.extent * bl[i]); }
  return addtype(s, e, o);
}
int MPI_Type_create_resized(MPI_Datatype t, MPI_Aint, MPI_Aint e, MPI_Datatype * o) { return addtype(tinfo(t).size, (size_t)e, o); }
int MPI_Type_dup(MPI_Datatype t, MPI_Datatype * o) { TypeInfo i = tinfo(t); return addtype(i.size, i.extent, o); }
int MPI_Type_commit(MPI_Datatype *) { return 0; }
int MPI_Type_free(MPI_Datatype * t) { *t = MPI_DATATYPE_NULL; return 0; }
int MPI_Get_address(const void * p, MPI_Aint * a) { *a = (MPI_Aint)p; return 0; }
int MPI_Op_create(MPI_User_function * f, int, MPI_Op * o) { userops.push_back(f); *o = SIM_OP_FIRST_USER + (int)userops.size() - 1; return 0; }
int MPI_Op_free(MPI_Op * o) { *o = MPI_OP_NULL; return 0; }

static void send_common(const void * b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, bool sync, MPI_Request * rq, const char * f) {
  need_active(f);
  if(d == MPI_PROC_NULL) { if(rq) { *rq = newreq(); W->reqs[*rq].complete = true; W->reqs[*rq].is_send = true; } return; }
  size_t nb = B(n, t, f);
  if(tag < 0) violate_here("invalid-tag", f);
  int dst = toworld(c, d, f);
  point(f);
  int q;
  int id = post_send(b, nb, dst, tag, c, sync, &q);
  if(rq) { *rq = q; return; }
  if(!W->reqs[id].complete) block_until(f, [id] { return W->reqs[id].complete; });
  W->reqs[id].freed = true;
}
int MPI_Send(const void * b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { send_common(b, n, t, d, tag, c, false, nullptr, "Send"); return 0; }
int MPI_Ssend(const void * b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { send_common(b, n, t, d, tag, c, true, nullptr, "Ssend"); return 0; }
int MPI_Isend(const void * b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request * r) { send_common(b, n, t, d, tag, c, false, r, "Isend"); return 0; }
int MPI_Issend(const void * b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request * r) { send_common(b, n, t, d, tag, c, true, r, "Issend"); return 0; }
static int irecv_common(void * b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, const char * f) {
  need_active(f);
  step_count(f);
  size_t nb = B(n, t, f);
  if(s == MPI_PROC_NULL) {
    int q = newreq(); W->reqs[q].complete = true; set_status(&W->reqs[q].st, MPI_PROC_NULL, MPI_ANY_TAG, 0); return q;
  }
  int src = s == MPI_ANY_SOURCE ? s : toworld(c, s, f);
  return post_recv(b, nb, src, tag, c);
}
int MPI_Irecv(void * b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request * r) {
  *r = irecv_common(b, n, t, s, tag, c, "Irecv");
  return 0;
}
int MPI_Wait(MPI_Request * r, MPI_Status * st) {
  need_active("Wait");
  if(*r == MPI_REQUEST_NULL) { step_count("Wait"); set_status(st, MPI_ANY_SOURCE, MPI_ANY_TAG, 0); return 0; }
  getreq(*r, "Wait");
  int id = *r;
  block_until("Wait", [id] { return W->reqs[id].complete; });
  finish_req(r, st);
  return 0;
}
int MPI_Recv(void * b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status * st) {
  if(s == MPI_ANY_SOURCE) point("Recv");
  MPI_Request q = irecv_common(b, n, t, s, tag, c, "Recv");
  if(!W->reqs[q].complete) block_until("Recv", [q] { return W->reqs[q].complete; });
  finish_req(&q, st);
  return 0;
}
int MPI_Sendrecv(const void * sb, int sn, MPI_Datatype stt, int d, int stag, void * rb, int rn, MPI_Datatype rt, int s, int rtag, MPI_Comm c, MPI_Status * st) {
  need_active("Sendrecv");
  MPI_Request rq = irecv_common(rb, rn, rt, s, rtag, c, "Sendrecv"), sq;
  send_common(sb, sn, stt, d, stag, c, false, &sq, "Sendrecv");
  block_until("Sendrecv", [rq, sq] { return W->reqs[rq].complete && W->reqs[sq].complete; });
  finish_req(&sq, nullptr);
  finish_req(&rq, st);
  return 0;
}
int MPI_Sendrecv_replace(void * b, int n, MPI_Datatype t, int d, int stag, int s, int rtag, MPI_Comm c, MPI_Status * st) {
  size_t nb = B(n, t, "Sendrecv_replace");
  std::vector<char> tmp((char *)b, (char *)b + nb);
  return MPI_Sendrecv(tmp.data(), n, t, d, stag, b, n, t, s, rtag, c, st);
}
int MPI_Probe(int s, int tag, MPI_Comm c, MPI_Status * st) {
  need_active("Probe");
  point("Probe");
  int src = s == MPI_ANY_SOURCE ? s : toworld(c, s, "Probe");
  int me = W->cur;
  block_until("Probe", [=] {
    for(auto & m : W->msgs) if(matches(m, me, src, tag, c)) return true;
    return false;
  });
  auto v = candidates(src, tag, c);
  uint32_t o = choose((uint32_t)v.size());
  set_status(st, tocomm(c, v[o]->src), v[o]->tag, v[o]->bytes);
  W->r[W->cur].spinning = false;
  hist(mix(0xA1, v[o]->src * 64 + v[o]->tag));
  return 0;
}
int MPI_Iprobe(int s, int tag, MPI_Comm c, int * flag, MPI_Status * st) {
  need_active("Iprobe");
  point("Iprobe");
  int src = s == MPI_ANY_SOURCE ? s : toworld(c, s, "Iprobe");
  auto v = candidates(src, tag, c);
  *flag = 0;
  if(v.empty()) {
    hist(0xA2);
    spin_yield("Iprobe");
    return 0;
  }
  uint32_t o = choose((uint32_t)v.size() + 1); // last option: not visible yet
  if(o == v.size()) { hist(0xA3); return 0; }
  *flag = 1;
  W->r[W->cur].spinning = false;
  set_status(st, tocomm(c, v[o]->src), v[o]->tag, v[o]->bytes);
  hist(mix(0xA4, v[o]->src * 64 + v[o]->tag));
  return 0;
}
int MPI_Get_count(const MPI_Status * st, MPI_Datatype t, int * n) {
  TypeInfo i = tinfo(t);
  if(i.extent == 0) violate_here("invalid-type", "Get_count");
  if(st->sim_bytes % i.extent) *n = MPI_UNDEFINED;
  else *n = (int)(st->sim_bytes / i.extent);
  return 0;
}
int MPI_Get_elements(const MPI_Status * st, MPI_Datatype t, int * n) { return MPI_Get_count(st, t, n); }
int MPI_Test(MPI_Request * r, int * flag, MPI_Status * st) {
  need_active("Test");
  if(*r == MPI_REQUEST_NULL) { *flag = 1; set_status(st, MPI_ANY_SOURCE, MPI_ANY_TAG, 0); return 0; }
  getreq(*r, "Test");
  point("Test");
  if(W->reqs[*r].complete) { *flag = 1; hist(0xB1); W->r[W->cur].spinning = false; finish_req(r, st); }
  else { *flag = 0; hist(0xB2); spin_yield("Test"); }
  return 0;
}
int MPI_Testall(int n, MPI_Request * r, int * flag, MPI_Status * st) {
  need_active("Testall");
  point("Testall");
  bool all = true;
  for(int i = 0; i < n; ++i) if(r[i] != MPI_REQUEST_NULL && !getreq(r[i], "Testall").complete) all = false;
  *flag = all;
  if(all) { for(int i = 0; i < n; ++i) if(r[i] != MPI_REQUEST_NULL) finish_req(r + i, st ? st + i : nullptr); W->r[W->cur].spinning = false; hist(0xB3); }
  else { hist(0xB4); spin_yield("Testall"); }
  return 0;
}
static int some_complete(int n, MPI_Request * r) { for(int i = 0; i < n; ++i) if(r[i] != MPI_REQUEST_NULL && W->reqs[r[i]].complete) return i; return -1; }
int MPI_Testany(int n, MPI_Request * r, int * idx, int * flag, MPI_Status * st) {
  need_active("Testany");
  point("Testany");
  bool any = false;
  for(int i = 0; i < n; ++i) if(r[i] != MPI_REQUEST_NULL) { any = true; getreq(r[i], "Testany"); }
  *idx = MPI_UNDEFINED; *flag = 1;
  if(!any) return 0;
  int k = some_complete(n, r);
  if(k < 0) { *flag = 0; hist(0xB5); spin_yield("Testany"); return 0; }
  *idx = k; hist(mix(0xB6, k));
  finish_req(r + k, st);
  return 0;
}
int MPI_Testsome(int n, MPI_Request * r, int * cnt, int * idx, MPI_Status * st) {
  need_active("Testsome");
  point("Testsome");
  bool any = false;
  for(int i = 0; i < n; ++i) if(r[i] != MPI_REQUEST_NULL) { any = true; getreq(r[i], "Testsome"); }
  if(!any) { *cnt = MPI_UNDEFINED; return 0; }
  *cnt = 0;
  for(int i = 0; i < n; ++i) if(r[i] != MPI_REQUEST_NULL && W->reqs[r[i]].complete) { idx[*cnt] = i; finish_req(r + i, st ? st + *cnt : nullptr); ++*cnt; }
  hist(mix(0xB7, *cnt));
  if(*cnt == 0) spin_yield("Testsome");
  return 0;
}
int MPI_Waitall(int n, MPI_Request * r, MPI_Status * st) {
  need_active("Waitall");
  for(int i = 0; i < n; ++i) if(r[i] != MPI_REQUEST_NULL) getreq(r[i], "Waitall");
  std::vector<int> ids(r, r + n);
  block_until("Waitall", [ids] { for(int i : ids) if(i != MPI_REQUEST_NULL && !W->reqs[i].complete) return false; return true; });
  for(int i = 0; i < n; ++i) if(r[i] != MPI_REQUEST_NULL) finish_req(r + i, st ? st + i : nullptr);
  return 0;
}
int MPI_Waitany(int n, MPI_Request * r, int * idx, MPI_Status * st) {
  need_active("Waitany");
  bool any = false;
  for(int i = 0; i < n; ++i) if(r[i] != MPI_REQUEST_NULL) { any = true; getreq(r[i], "Waitany"); }
  if(!any) { *idx = MPI_UNDEFINED; return 0; }
  block_until("Waitany", [=] { return some_complete(n, r) >= 0; });
  int c = 0;
  std::vector<int> v;
  for(int i = 0; i < n; ++i) if(r[i] != MPI_REQUEST_NULL && W->reqs[r[i]].complete) v.push_back(i), ++c;
  *idx = v[choose((uint32_t)c)];
  hist(mix(0xB8, *idx));
  finish_req(r + *idx, st);
  return 0;
}
int MPI_Waitsome(int n, MPI_Request * r, int * cnt, int * idx, MPI_Status * st) {
  int k;
  bool any = false;
  for(int i = 0; i < n; ++i) if(r[i] != MPI_REQUEST_NULL) { any = true; getreq(r[i], "Waitsome"); }
  if(!any) { *cnt = MPI_UNDEFINED; return 0; }
  block_until("Waitsome", [=] { return some_complete(n, r) >= 0; });
  (void)k;
  *cnt = 0;
  for(int i = 0; i < n; ++i) if(r[i] != MPI_REQUEST_NULL && W->reqs[r[i]].complete) { idx[*cnt] = i; finish_req(r + i, st ? st + *cnt : nullptr); ++*cnt; }
  return 0;
}
int MPI_Request_free(MPI_Request * r) { getreq(*r, "Request_free").freed = true; *r = MPI_REQUEST_NULL; return 0; }
int MPI_Cancel(MPI_Request *) { violate_here("unsupported", "MPI_Cancel"); }

int MPI_Barrier(MPI_Comm c) { std::pair<int, int> id; Coll * k; enter(c, C_BARRIER, 0, id, k); leave(c, id, k); return 0; }
int MPI_Ibarrier(MPI_Comm c, MPI_Request * r) { MPI_Barrier(c); *r = newreq(); W->reqs[*r].complete = true; W->reqs[*r].is_coll = true; return 0; }
void SIM_quiescent(const char *) { std::pair<int, int> id; Coll * k; enter(MPI_COMM_WORLD, C_QUIET, 0, id, k); leave(MPI_COMM_WORLD, id, k); }
void SIM_fail(const char * key, const char * msg) { violate(key, msg); }
int MPI_Bcast(void * b, int n, MPI_Datatype t, int root, MPI_Comm c) {
  size_t nb = B(n, t, "Bcast"); toworld(c, root, "Bcast");
  std::pair<int, int> id; Coll * k; auto & a = enter(c, C_BCAST, root, id, k);
  a.rb = b; a.rbytes = nb; leave(c, id, k); return 0;
}
static int red(int op, const void * s, void * r, int n, MPI_Datatype t, MPI_Op o, int root, MPI_Comm c) {
  size_t nb = B(n, t, cname(op)); toworld(c, root, cname(op));
  std::pair<int, int> id; Coll * k; auto & a = enter(c, op, root, id, k);
  a.sb = s; a.rb = r; a.sbytes = nb; a.dt = t; a.opn = o; a.count = n; leave(c, id, k); return 0;
}
int MPI_Reduce(const void * s, void * r, int n, MPI_Datatype t, MPI_Op o, int root, MPI_Comm c) { return red(C_REDUCE, s, r, n, t, o, root, c); }
int MPI_Allreduce(const void * s, void * r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { return red(C_ALLREDUCE, s, r, n, t, o, 0, c); }
int MPI_Scan(const void * s, void * r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { return red(C_SCAN, s, r, n, t, o, 0, c); }
int MPI_Exscan(const void * s, void * r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { return red(C_EXSCAN, s, r, n, t, o, 0, c); }

static void cnts(Coll::Arg & a, bool recv, const int * cn, const int * dp, MPI_Datatype t, int n, int uniform, const char * f) {
  size_t e = B(1, t, f);
  auto & C = recv ? a.rc : a.sc;
  auto & D = recv ? a.rd : a.sd;
  C.resize(n); D.resize(n);
  for(int i = 0; i < n; ++i) {
    int q = cn ? cn[i] : uniform;
    if(q < 0) violate_here("invalid-count", std::string(f) + ": negative count");
    C[i] = e * (size_t)q;
    D[i] = e * (size_t)(dp ? dp[i] : i * uniform);
  }
}
static int gatherv(const void * s, int sn, MPI_Datatype st, void * r, const int * rc, const int * rd, int uni, MPI_Datatype rt, int root, MPI_Comm c) {
  toworld(c, root, "Gather");
  int n = (int)comm(c).ranks.size();
  std::pair<int, int> id; Coll * k; auto & a = enter(c, C_GATHERV, root, id, k);
  a.sb = s; a.rb = r; if(s != MPI_IN_PLACE) a.sbytes = B(sn, st, "Gather");
  if(myrank(c) == root) cnts(a, true, rc, rd, rt, n, uni, "Gather");
  leave(c, id, k); return 0;
}
int MPI_Gather(const void * s, int sn, MPI_Datatype st, void * r, int rn, MPI_Datatype rt, int root, MPI_Comm c) { return gatherv(s, sn, st, r, nullptr, nullptr, rn, rt, root, c); }
int MPI_Gatherv(const void * s, int sn, MPI_Datatype st, void * r, const int * rc, const int * rd, MPI_Datatype rt, int root, MPI_Comm c) { return gatherv(s, sn, st, r, rc, rd, 0, rt, root, c); }
static int scatterv(const void * s, const int * sc, const int * sd, int uni, MPI_Datatype st, void * r, int rn, MPI_Datatype rt, int root, MPI_Comm c) {
  toworld(c, root, "Scatter");
  int n = (int)comm(c).ranks.size();
  std::pair<int, int> id; Coll * k; auto & a = enter(c, C_SCATTERV, root, id, k);
  a.sb = s; a.rb = r; if(r != MPI_IN_PLACE) a.rbytes = B(rn, rt, "Scatter");
  if(myrank(c) == root) cnts(a, false, sc, sd, st, n, uni, "Scatter");
  leave(c, id, k); return 0;
}
int MPI_Scatter(const void * s, int sn, MPI_Datatype st, void * r, int rn, MPI_Datatype rt, int root, MPI_Comm c) { return scatterv(s, nullptr, nullptr, sn, st, r, rn, rt, root, c); }
int MPI_Scatterv(const void * s, const int * sc, const int * sd, MPI_Datatype st, void * r, int rn, MPI_Datatype rt, int root, MPI_Comm c) { return scatterv(s, sc, sd, 0, st, r, rn, rt, root, c); }
static int allgatherv(const void * s, int sn, MPI_Datatype st, void * r, const int * rc, const int * rd, int uni, MPI_Datatype rt, MPI_Comm c) {
  int n = (int)comm(c).ranks.size();
  std::pair<int, int> id; Coll * k; auto & a = enter(c, C_ALLGATHERV, 0, id, k);
  a.sb = s; a.rb = r; if(s != MPI_IN_PLACE) a.sbytes = B(sn, st, "Allgather");
  cnts(a, true, rc, rd, rt, n, uni, "Allgather");
  leave(c, id, k); return 0;
}
int MPI_Allgather(const void * s, int sn, MPI_Datatype st, void * r, int rn, MPI_Datatype rt, MPI_Comm c) { return allgatherv(s, sn, st, r, nullptr, nullptr, rn, rt, c); }
int MPI_Allgatherv(const void * s, int sn, MPI_Datatype st, void * r, const int * rc, const int * rd, MPI_Datatype rt, MPI_Comm c) { return allgatherv(s, sn, st, r, rc, rd, 0, rt, c); }
static int alltoallv(const void * s, const int * sc, const int * sd, int us, MPI_Datatype st, void * r, const int * rc, const int * rd, int ur, MPI_Datatype rt, MPI_Comm c) {
  int n = (int)comm(c).ranks.size();
  std::pair<int, int> id; Coll * k; auto & a = enter(c, C_ALLTOALLV, 0, id, k);
  a.sb = s; a.rb = r;
  if(s != MPI_IN_PLACE) cnts(a, false, sc, sd, st, n, us, "Alltoall");
  cnts(a, true, rc, rd, rt, n, ur, "Alltoall");
  leave(c, id, k); return 0;
}
int MPI_Alltoall(const void * s, int sn, MPI_Datatype st, void * r, int rn, MPI_Datatype rt, MPI_Comm c) { return alltoallv(s, nullptr, nullptr, sn, st, r, nullptr, nullptr, rn, rt, c); }
int MPI_Alltoallv(const void * s, const int * sc, const int * sd, MPI_Datatype st, void * r, const int * rc, const int * rd, MPI_Datatype rt, MPI_Comm c) { return alltoallv(s, sc, sd, 0, st, r, rc, rd, 0, rt, c); }
int MPI_Info_create(MPI_Info * i) { *i = 1; return 0; }
int MPI_Info_free(MPI_Info * i) { *i = 0; return 0; }
int MPI_Info_set(MPI_Info, const char *, const char *) { return 0; }
} // extern "C"

// ------------------------------------------------------- allocation monitoring
// Fresh memory has a fixed pattern (uninitialised reads become deterministic) and
// freeing a buffer that a pending message still has to be taken from is reported.
static void * xalloc(size_t n) {
  void * p = malloc(n ? n : 1);
  if(!p) throw std::bad_alloc();
  memset(p, 0xA5, n);
  return p;
}
static void xfree(void * p, size_t) {
  if(p && W && track_frees && !W->msgs.empty()) {

    for(auto & m : W->msgs)
      if(m.late && m.bytes) {

        const char * q = (const char *)p;

        size_t u = ::malloc_usable_size(p);
        if(m.buf < q + u && q < m.buf + m.bytes) {
          violate("send-buffer-freed", "a send buffer was released before its message was taken (" +
            std::to_string(m.src) + "->" + std::to_string(m.dst) + " tag " + std::to_string(m.tag) + ")");
          break;
        }
      }
  }
  free(p);
}
void * operator new(size_t n) { return xalloc(n); }
void * operator new[](size_t n) { return xalloc(n); }
void operator delete(void * p) noexcept { xfree(p, 0); }
void operator delete[](void * p) noexcept { xfree(p, 0); }
void operator delete(void * p, size_t) noexcept { xfree(p, 0); }
void operator delete[](void * p, size_t) noexcept { xfree(p, 0); }
