// Stateless model checking of real multi-threaded code: a controlled scheduler
// behind the pthread interface, plus a happens-before race detector behind the
// compiler's -fsanitize=thread instrumentation (no libtsan involved).
#pragma once
#include <cstdint>
#include <functional>
#include <string>

namespace mcs {

struct Options {
  int preemptions = 2;      // bound on switches away from a thread that could go on
  int spurious = 1;         // bound on spurious wakeups per execution
  bool atomic_points = false;  // atomic operations are scheduling points
  long max_execs = 0;       // 0: no limit (the run then is exhaustive)
  int first = 0, nfirst = 1;  // shard of the schedule tree
};

struct Result {
  long execs = 0, decisions = 0, steps = 0, truncated = 0;
  int max_threads = 0, max_depth = 0;
  long outcomes = 0;        // distinct outcomes
  std::string violation;    // empty: none
};

// Runs `body` under every schedule within the bounds, each in a forked child.
// `body` reports with Fail(); Outcome() records what every schedule must agree
// on.
Result Explore(const Options &opt, const std::function<void()> &body);

void Fail(const std::string &what);       // ends this execution
void Outcome(const std::string &bytes);   // must be equal in all executions
void Point();                             // voluntary scheduling point
int Self();

// Counts its live copies, outside the explored program's own memory accesses.
struct Held {
  int *n;
  explicit Held(int *n);
  Held(const Held &o);
  ~Held();
  Held &operator=(const Held &) = delete;
};
int Live(const int *n);

}  // namespace mcs
