// Controlled execution of two threads over code compiled with -fsanitize=thread: every memory access
// of the instrumented code calls the runtime in sched.cpp, which records it and may switch threads.
#pragma once
#include <stddef.h>
#include <stdint.h>

#include <functional>
#include <string>
#include <vector>

namespace sched {
struct Schedule {
  int first = 0;               // thread that starts
  std::vector<int> switchAt;   // alternately: the visible operation of the running thread before
                               // which the other one continues
  bool operator<(const Schedule& o) const {
    return first != o.first ? first < o.first : switchAt < o.switchAt;
  }
};
struct Outcome {
  int signal = 0;              // the process died
  bool hang = false;
  std::vector<double> digest[2];
  std::string error[2];
  uint64_t accesses[2] = {0, 0};
  int visible[2] = {0, 0};     // visible operations performed
  std::vector<int> firstOf[2]; // indices of the first visible operation of each distinct code location
  std::vector<uint64_t> conflicts;  // granules both threads accessed, at least one of them writing
  int switches = 0;
};
typedef std::function<std::string(std::vector<double>&)> Body;
// runs the bodies in a new process, under the schedule; `visible` granules (and library calls) are
// the points where a switch can happen. An empty second body runs the first one alone.
Outcome execute(const Body& a, const Body& b, const Schedule& s, const std::vector<uint64_t>& visible,
                double limit);
void init();  // before anything allocates
}  // namespace sched
