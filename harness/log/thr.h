// Threads of the code under test as fibers: the thread of rank r runs only when told to, up to its next
// synchronisation (lock, unlock, sleep, end).
#pragma once
#include <cstdint>
#include <string>
#include <ctime>
#include <utility>
#include <vector>
namespace thr {
constexpr time_t FIXED_TIME = 1500000000;
struct Sched { bool eager = false; std::vector<std::pair<uint32_t, uint32_t>> dev; std::string str() const; };
void begin(const Sched &, int ranks);
void main_of(int rank);  // the caller is the main thread of this rank from here on (outside the simulated MPI)
void point();            // of the main thread: the other may run
void nap();              // of any thread: the other may run
bool in_thread();
uint32_t end(std::string & stuck); // points met
}
