#include <array>
#include <climits>
#include <stdexcept>
#include <algorithm>
#include <mpi.h>
#include "bodies_system.h"
#include "ccase.h"

template<class M, class MK> static void exchange(int rank, const CCase * c, CRes * r, MK mk) {
  std::vector<int> sc = c->cnt[rank];
  std::vector<M> sb, rb;
  for(int j = 0; j < c->n; ++j) for(int k = 0; k < sc[j]; ++k) sb.push_back(mk(rank, j, k));
  for(int k = 0; k < c->variant; ++k) sb.push_back(mk(98, 98, k)); // more than is sent
  // whatever the receive buffer held before must not matter
  for(int k = 0; k < c->variant; ++k) rb.push_back(mk(99, 99, k));
  if(c->op == 'A') mpi_utils::mpi_alltoallv(sc, sb, rb);
  else mpi_utils::mpi_alltoallv_p2p(sc, sb, rb);
  for(auto & e : rb) r->out.push_back(*(El *)&e);
}
extern "C" __attribute__((visibility("default"))) void
coll_entry(int rank, const CCase * c, CRes * r) {
  *r = CRes();
  switch(c->op) {
    case 'P': {
      std::vector<El> v;
      for(size_t i = 0; i < c->key[rank].size(); ++i) v.push_back(El{c->key[rank][i], rank, 0, (int)i, 0.5 * rank + i});
      std::vector<int> dist(c->n);
      for(int i = 0; i < c->n; ++i) dist[i] = (int)c->key[i].size();
      if(c->variant == 0) psort::psort(v, [](const El & a, const El & b) { return a.key < b.key; }, dist.data());
      else psort::psort(v, [](const El & a, const El & b) { return a.key < b.key || (a.key == b.key && a.from * 1000 + a.idx < b.from * 1000 + b.idx); }, dist.data());
      for(int i = 0; i < c->n; ++i) r->count.push_back(dist[i]);
      r->out = v;
      break;
    }
    case 'A': case 'B': exchange<El>(rank, c, r, [](int i, int j, int k) { return El{i * 100 + j * 10 + k, i, j, k, i + 0.25 * j}; }); break;
    case 'C': {
      std::vector<int> sc = c->cnt[rank];
      std::vector<std::vector<El>> sb(c->n), rb(c->n);
      for(int j = 0; j < c->n; ++j) {
        for(int k = 0; k < sc[j]; ++k) sb[j].push_back(El{0, rank, j, k, rank + 0.25 * j});
        for(int k = 0; k < c->variant; ++k) sb[j].push_back(El{0, 98, 98, k, 1.}); // more than is sent
        for(int k = 0; k < c->variant; ++k) rb[j].push_back(El{0, 99, 99, k, 0.});
      }
      mpi_utils::mpi_alltoallv_p2p(sc, sb, rb);
      r->per = rb;
      break;
    }
    case 'G': {
      std::vector<El> s, v;
      for(int k = 0; k < c->cnt[rank][0]; ++k) s.push_back(El{0, rank, 0, k, 1.5 * rank});
      for(int k = 0; k < c->variant; ++k) v.push_back(El{0, 99, 0, k, 0.});
      std::vector<int> cnt(c->variant);
      mpi_utils::mpi_allgatherv(s, v, cnt);
      r->out = v;
      r->count = cnt;
      break;
    }
    case 'R': {
      double x = c->val[rank][0];
#define RED(T, CAST) { T a = (T)CAST, b = a, s = a; mpi_utils::reduce_min(a); mpi_utils::reduce_max(b); mpi_utils::reduce_sum(s); r->red.push_back((double)a); r->red.push_back((double)b); r->red.push_back((double)s); }
      RED(double, x) RED(float, x) RED(int, x)
      if(c->variant) RED(uint64_t, x)
      point_t p;
      for(size_t d = 0; d < gdimension; ++d) p[d] = x * (d + 1) + rank;
      mpi_utils::reduce_sum(p);
      for(size_t d = 0; d < gdimension; ++d) r->red.push_back(p[d]);
      break;
    }
    case 'F': {
      // the file name is only given to rank 0
      param::mpi_read_params(rank == 0 ? c->file.c_str() : "not the name");
      r->text = std::to_string(param::nparticles) + " " + param::initial_data_prefix + " " + (param::sph_kernel == param::gaussian ? "gaussian" : "other");
      break;
    }
  }
  SIM_quiescent("coll");
}
