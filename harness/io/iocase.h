#pragma once
#include <string>
#include <utility>
#include <vector>
struct IB { double x[3], v[3], a[3], g[3], m, h, rho, P, u, dt, grad, ss, alpha, div, ddiv, trig, xi; long id; int type, state; long nb; };
struct Write { std::string prefix; int iter; double time, dt; std::vector<std::vector<IB>> of; }; // of every rank
// one process: optional read, then writes, or a run with periodic output from `first` to `last`
struct Life {
  int n; bool sep = false; std::string in, out; int first = 0; bool read = false;
  std::vector<Write> writes;
  int last = -1, every = 1;
  double initial_dt = .125;
  int salt = 0; // told apart from other runs of the history
};
struct LRes { std::vector<IB> b; double time = -7, dt = -7; long total = -1, local = -1; int done = 0; };
typedef void (*io_entry_t)(int, const Life *, LRes *);
// what a run puts into particle i at an iteration
static inline double run_value(int salt, int iter, long i, int f) { return salt * 1e6 + iter * 1000. + i * 16 + f + .25; }
static inline double run_time(int iter) { return iter * .375; }
static inline double run_dt(int iter) { return .01 * (iter + 1); }
