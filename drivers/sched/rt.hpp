// Controlled scheduler: run time behind the thread sanitizer's instrumentation of the code under test.
#pragma once
#include <functional>
#include <string>
#include <vector>
#include "mc.hpp"
namespace sched {
struct Options { bool at_functions = false; };   // switch points at function entries too, not only at synchronisation
// Runs the functions as threads, one at a time, switching as ctx decides (preemptions are deviations).
// Ends the process through mc::finish_failed on a data race, deadlock or use of freed memory.
void run(mc::Ctx& x, const std::vector<std::function<void()>>& threads, const Options& o);
struct Stats { unsigned long accesses, syncs, functions; };
Stats stats();
}
