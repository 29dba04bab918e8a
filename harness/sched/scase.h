#pragma once
#include <string>
#include <utility>
#include <vector>
struct SCase {
  std::vector<std::pair<std::string, std::string>> par;
  std::vector<double> limit; // cycled over iterations
  int n = 1, guard = 400;
  long start = 0; // > 0: restart from this iteration of the input file
};
struct SStep { long it; double t, dt, t2; }; // at the outputs; t2: after advancing
struct SRes { std::vector<SStep> s; bool done = false; };
typedef void (*sched_entry_t)(int, const SCase *, SRes *);
