// Explorer-side interface of the simulated MPI.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <utility>
#include <vector>

namespace sim {
struct Sched {
  std::vector<int> prio;                            // rank priority, first = preferred
  bool rendezvous = false;                          // standard sends complete only when matched
  bool rr = false;                                  // round robin at every point instead of run-to-block
  std::vector<std::pair<uint32_t, uint32_t>> dev;   // (choice index, option) deviations
  std::string str() const;
  static Sched parse(const std::string &);
};
struct Result {
  bool ok = true;
  std::string key, msg;              // first violation
  std::vector<uint8_t> nopt;         // number of options at each choice
  uint64_t steps = 0;                // MPI operations executed
  uint64_t finalhash = 0;            // hash of the final per-rank event histories
};
// Runs fn(rank) on n ranks under the schedule. state_sink, if given, receives a
// hash of the global state (per-rank event histories) at every choice point.
Result run(int n, const Sched & s, const std::function<void(int)> & fn,
  const std::function<void(uint64_t)> & state_sink = nullptr,
  uint64_t max_steps = 400000);
int cur_rank();
int cur_size();
bool active();
extern bool track_frees;   // detect freeing of a buffer that is being sent
}
