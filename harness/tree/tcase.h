// Data shared between the explorer (main.cc) and the rank side (rank.cc).
#pragma once
#include <cstdint>
#include <string>
#include <vector>
struct TP { // particle
  double x[3] = {0, 0, 0}, v[3] = {0, 0, 0};
  double h = 0, m = 0, rho = 0, u = 0;
  long id = 0;
  int rank = 0;
};
struct TOp { char op; double a = 0; }; // U update, S sweep, F set fields, R reset ghosts, M move, G gravity(angle), W walk, Q find in radius
struct TSweep { long id; std::vector<long> nb; std::vector<double> nbrho, nbu, nbv, nbx, nbm; };
struct TBody { long id; uint64_t key; double x[3], v[3], h, m, rho, u, ga[3], gp; };
struct TNode {
  uint64_t key; int depth; bool entity, shared, empty; long id;
  double mass, com[3], bmin[3], bmax[3], radius, lap; long count; double x[3];
};
struct TStep { // what one rank did in one op
  std::vector<TSweep> sweep;
  std::vector<TBody> bodies;
  std::vector<TNode> nodes;
  double range[2][3];
  long nlocal = 0, ntotal = 0;
  std::vector<std::vector<long>> found;
  uint64_t keycheck = 0;
};
struct TCase {
  int n = 1; // ranks
  bool quiet = true; // check for leftover messages after each op
  std::vector<TP> p;
  std::vector<TOp> prog;
  std::vector<std::array<double, 4>> queries;
};
struct TRes { std::vector<TStep> step; }; // per rank
using rank_entry_t = void (*)(int rank, const TCase *, TRes *);
