// Deterministic scheduler for code using pthread mutexes and conditions.
// Exactly one task runs at a time; at every synchronisation operation (and
// explicit yield) the next task is picked from a seed. Mutexes and conditions
// are simulated, so that every blocked-forever situation is detected exactly.
// With -DREAL_THREADS the same interface runs ordinary threads (for TSan).
#ifndef VERIF_DSCHED_HPP
#define VERIF_DSCHED_HPP
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace ds {
struct Result
{
  bool deadlock = false, livelock = false;
  std::string what;
  uint64_t hash = 0;      // of the sequence of scheduling decisions
  long switches = 0, steps = 0, spurious = 0, waits = 0, contended = 0;
};
// runs the tasks to completion
Result run( const std::vector< std::function< void() > > & tasks, uint64_t seed, int spuriousPermille );
void yield();             // a preemption point
void idle();              // the caller has nothing to do right now
int self();               // index of the running task, -1 outside
long stamp();             // a global, increasing time stamp
}
#endif
