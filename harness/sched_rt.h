// Controlled OpenMP scheduler and happens-before race monitor.
//
// The code under test is compiled with -fopenmp -fsanitize=thread but linked against neither
// libgomp nor libtsan: sched_rt.cpp implements both interfaces.  Team members are real threads
// of which exactly one runs at a time; they are switched only at synchronisation operations,
// where the scheduler takes the next decision of an explored schedule.  All plain accesses
// between them are monitored with vector clocks, so a pair of conflicting unordered accesses is
// reported in whichever schedule it occurs.
#pragma once
#include <string>
#include <vector>
namespace sched {
  struct Race { std::string what; };
  struct Run { long points=0, switches=0, regions=0, accesses=0, loops=0, locks=0; int maxteam=0; std::vector<int> width; std::vector<std::string> races; bool deadlock=false; };
  // Execute fn with `team` threads under the schedule `choice` (decision index per scheduling point with >1 runnable thread; 0 beyond its end)
  Run execute(int team, const std::vector<int> &choice, void (*fn)(void*), void *arg);
  extern bool active;
}
