//! bounds up to 4 (thorough 5) tasks on 0 to 3 hardware threads, every order in which started threads, finishing tasks and expired waits can follow each other with up to 2 involuntary switches and 1 (2) expired waits; larger queues of up to 12 tasks on up to 5 hardware threads with the oldest or the newest thread going on first
//! outside switches between two plain memory accesses, more involuntary switches, tasks that throw
//! assume the standard library blocks and starts threads only through the calls replaced in harness/threads.h
//! native g++
//! flags * --preempt 0
#include "sx.h"
#include <limits>
#include <stdexcept>
#include "threads.h"
#include "datas/multi_thread.hpp"

static unsigned runs[16], ends[16], strange;
static void task(size_t i) {
  if (i >= 16) { strange++; return; }
  runs[i]++; thr::pass(false); ends[i]++;
}
static void run(size_t tasks, unsigned hw) {
  thr::hardware = hw;
  RunThreadedQueue(tasks, [](size_t i) { task(i); });
  for (size_t i = 0; i < 16; i++) {
    CHECK(runs[i] == (i < tasks ? 1u : 0u), "every task runs exactly once");
    CHECK(ends[i] == runs[i], "every task is done when the queue returns");
  }
  CHECK(!strange, "no task is made up");
  for (unsigned i = 1; i < thr::n; i++) CHECK(thr::t[i].done, "no thread is left behind");
}
ENTRY(schedules) { thr::maxSwitches = 2; thr::maxTimeouts = TIER(1, 2); const size_t n = pick("tasks", TIER(5, 6)); run(n, (unsigned)pick("hardware threads", 4)); }
ENTRY(sizes) { thr::maxSwitches = 0; thr::maxTimeouts = 2; thr::orderly = 1 + (int)pick("order", 2); const size_t n = pick("tasks", 13); run(n, (unsigned)pick("hardware threads", 6)); }
static size_t total;
struct Functor { size_t *sum; int operator()(size_t i) const { *sum += i + 1; thr::pass(false); return (int)i; } };
ENTRY(functor) { thr::maxSwitches = 2; total = 0; const size_t n = pick("tasks", 4); thr::hardware = 2; Functor f{&total}; RunThreadedQueue(n, f); CHECK(total == n * (n + 1) / 2, "a function object with a result is run for every task"); }
ENTRY(again) { thr::maxSwitches = 1; const size_t n = pick("tasks", 4); thr::hardware = 2; RunThreadedQueue(n, [](size_t i) { runs[i]++; }); RunThreadedQueue(n, [](size_t i) { runs[i]++; }); for (size_t i = 0; i < n; i++) CHECK(runs[i] == 2, "a second queue runs every task again"); }
