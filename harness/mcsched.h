// Controlled scheduler: threads are coroutines, every pthread and atomic operation of the code under test is a
// scheduling point, and all schedules are enumerated by stateless depth-first search.  Code compiled with
// -fsanitize=thread reports its memory accesses to sched.cpp (no sanitizer runtime is linked), which checks
// with vector clocks that conflicting accesses are ordered by synchronisation; so the sync points are the only
// points at which the interleaving can matter.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
namespace mc {
struct Result { std::string violation; bool truncated = false; std::vector<int> choices; };
// One execution.  `choices` are followed as far as they go, then alternative 0 is taken; on return the vectors
// hold the taken choices and the number of alternatives at each.
Result run(const std::vector<std::function<void()>>& threads, std::vector<int>& choices, std::vector<int>& alternatives, int spurious, unsigned maxPoints, int preempt = -1);
void note(uint64_t);                       // abstract state of the calling thread (for state counting)
extern std::function<void(uint64_t)> onState;
int current();                             // running model thread or -1
// All executions whose first choices are `prefix`.  f is called before each execution to make fresh threads, and after it.
struct Stats { uint64_t schedules = 0, points = 0; bool truncated = false; std::string violation; std::vector<int> trace; };
Stats explore(std::function<std::vector<std::function<void()>>()> make, std::function<std::string()> judge, const std::vector<int>& prefix, int spurious, unsigned maxPoints = 400, uint64_t maxSchedules = 0, int preempt = -1);
}
