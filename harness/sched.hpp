// Controlled scheduler: the threads of the code under test run as fibers of one thread, and every
// lock, atomic access, sleep, join and publication is a point where the explorer decides who runs.
// All executions up to a number of preemptions are run. Memory accesses (instrumented by the
// compiler) are checked for data races by happens-before, and for use after free.
#ifndef VERIF_SCHED_HPP
#define VERIF_SCHED_HPP
#include <functional>
#include "mc.hpp"

namespace sched
{
// Runs body as the first thread ("driver"). Violations found by the scheduler fail the execution.
void run(mc::Ctx & c, const std::function<void()> & body);
// From here on scheduling is a choice. Each sleeping thread may be woken up `wakes` times.
void explore(int preemptions, int wakes);
// Back to: a thread runs until it blocks or sleeps.
void stop();
// The driver waits for its next event: others may run, at no cost.
void idle();
// Each other thread runs until it has slept `rounds` times more, one after the other.
void settle(int rounds);
// Number of threads, other than the driver, that have not ended
int alive();
int self();
// a choice of the environment, on any thread
int decide(int n, const char * what);
int preemptions_used();
[[noreturn]] void fail(const char * fmt, ...) __attribute__((format(printf, 1, 2)));
// a point where the explorer may switch
void point(int kind = 0);
struct Quiet { Quiet(); ~Quiet(); };   // no checks, no switches
extern bool race_detection;
extern uint64_t n_points, n_accesses;
}  // namespace sched
#endif
