#include <bitset>
#include <cassert>
#include <algorithm>
#include <cstring>
#include <iostream>
#include <mpi.h>
#include "log.h"
#include "lcase.h"
#include <list>
log_register_tag(alpha);
log_register_tag(beta);
extern "C" void LOG_stamp(long, long);
static const LCase * C;
static LOut * O;
static int me;
static size_t at;
#define SEV(M) switch(o.sev) { case 0: M(trace); break; case 1: M(info); break; case 2: M(warn); break; default: M(error); }
static void many() {
  for(; at < C->p.size(); ++at) {
    auto & o = C->p[at];
    std::cerr.rdbuf(O->err);
    if(o.stamp.size()) LOG_stamp(o.stamp[me].first, o.stamp[me].second);
    switch(o.k) {
      case ONE:
#define M(s) log_one(s) << o.text << std::endl
        O->line[at] = __LINE__; SEV(M)
#undef M
        break;
      case RANK:
#define M(s) log_rank(s, 0) << o.text << std::endl
#define N(s) log_rank(s, 1) << o.text << std::endl
        O->line[at] = __LINE__; if(o.a == 0) { SEV(M) } else { SEV(N) }
#undef M
#undef N
        break;
      case EVERY: {
        std::string t = o.list.size() ? o.list[me] : o.text;
#define M(s) logm(s) << t << std::endl
        O->line[at] = __LINE__; SEV(M)
#undef M
        break;
      }
      case FATAL:
        O->line[at] = __LINE__; try { log_fatal(o.text << 7); O->passed.push_back((int)at); }
        catch(std::runtime_error & e) { O->fatal.push_back(e.what()); }
        break;
      case ASSERT:
        O->line[at] = __LINE__; try { log_assert(o.a, o.text); O->passed.push_back((int)at); }
        catch(std::runtime_error & e) { O->fatal.push_back(e.what()); }
        break;
      case CONT: {
        auto d = (flecsph_log::log_delimiters_t)o.b;
        std::vector<std::string> v = o.list;
        std::list<std::string> l(v.begin(), v.end());
#define M(s) log_container_one(s, o.text, v, d)
#define N(s) log_container_rank(s, o.text, l, d, 0)
#define P(s) log_container(s, o.text, v, d)
        O->line[at] = __LINE__; if(o.a == 0) { SEV(M) } else if(o.a == 1) { SEV(N) } else { SEV(P) }
#undef M
#undef N
#undef P
        break;
      }
      case SETRANK: log_set_output_rank(o.a); break;
      case ADD: log_add_buffer(o.a ? "second" : "first", *O->sink[o.a], o.b); break;
      case ENABLE: log_enable_buffer(o.a == 2 ? "log" : o.a ? "second" : "first"); break;
      case DISABLE: log_disable_buffer(o.a == 2 ? "log" : o.a ? "second" : "first"); break;
      case INIT: log_init(o.text); break;
      case GUARD:
        ++at;
        if(o.a == 0) { log_tag_guard(alpha); many(); }
        else { log_tag_guard(beta); many(); }
        break;
      case POP: return;
    }
  }
}
extern "C" __attribute__((visibility("default"))) void
log_entry(int rank, const LCase * c, LOut * out) {
  C = c; O = out; me = rank; at = 0;
  O->line.assign(c->p.size(), 0);
  many();
}
