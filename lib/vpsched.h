// Controlled scheduler for the concurrency checks (see sched_rt.cc).
// Threads are coroutines; every interleaving at synchronisation operations is
// explored, and every memory access of the instrumented code is checked for
// data races (happens-before, vector clocks) and for use of freed memory.
#ifndef SCHED_H_
#define SCHED_H_
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
namespace sched {
struct Stats {
  uint64_t executions = 0, points = 0, accesses = 0, locks = 0, max_points = 0;
  bool capped = false;
};
struct Options {
  int max_preemptions = 1000000;   // preemptions: switches away from a thread that could go on
  bool atomic_points = false;      // atomic operations are schedule points, too
  bool stacks = false;             // accesses of the threads' stacks are checked for races, too
  unsigned branch_limit = 400;     // points after which no more alternatives are tried
};
// setup() prepares an execution and returns the thread bodies. After each
// execution after(problem) is called; problem is "" or describes a deadlock,
// race, bad unlock or use of freed memory. It returns false to stop.
Stats Explore(const std::function<std::vector<std::function<void()>>()>& setup,
              const std::function<bool(const std::string& problem)>& after, const Options& options = Options());
void Point();                      // a schedule point of its own (start of an operation)
void SetOp(const char* name);      // what the current thread is doing, for messages
uint64_t Now();                    // number of schedule points so far in this execution
int Self();                        // current thread or -1
std::string Schedule();            // choices of the current execution
// Blocks the current thread until ready() is true.
void WaitUntil(const std::function<bool()>& ready);
// Release/acquire edges for synchronisation made by stand-ins.
void Release(const void* object);
void Acquire(const void* object);
// For stand-ins of thread pools: run bodies as threads of their own, wait for all.
void Fork(const std::vector<std::function<void()>>& bodies);
// The two halves of Fork: the caller goes on until it waits for them.
std::vector<int> Start(const std::vector<std::function<void()>>& bodies);
void Wait(const std::vector<int>& ids);
}  // namespace sched
#endif
