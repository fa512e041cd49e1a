// Deterministic simulation of the threads, locks, condition variables and
// clocks used by the code under test.
//
// Every "thread" (including those the library creates with pthread_create) is
// a fiber; only one runs at a time.  The pthread and clock functions called by
// the library are redirected here by the linker (--wrap), and the library's
// queue and I/O thread code is compiled with load/store callbacks, so a switch
// can happen before any shared memory access.  All choices come from the tape,
// so an interleaving replays and shrinks like any other generated input.
// Time is virtual: it moves to the next deadline when nothing can run.
#pragma once
#include "engine.hpp"
#include <functional>

namespace sim {
constexpr int64_t US = 1000, MS = 1000000, SEC = 1000000000;
struct Opts {
	int mode = 0;              // 0: switch only when a thread blocks; 1..4: increasingly rare preemption
	int spurious = 0;          // spurious condition variable wakeups allowed
	int64_t frac = 0;          // sub-second part of the clocks at the start
	int64_t uptime = 5000000;  // seconds on the monotonic clock at the start
	std::vector<std::pair<int64_t, int64_t>> jumps; // the wall clock is set: virtual time, what is added from then on
	uint64_t max_steps = 8000000;
};
void begin(Tape *t, const Opts &o);   // the calling context becomes fiber 0
void end();                           // all other fibers must have finished
bool active();
int spawn(const char *name, std::function<void()> fn);
void join(int id);
void yield();                         // a point where the schedule may switch
void sleep_for(int64_t ns);
void sleep_until(int64_t ns);
void nopreempt(bool on);              // the current fiber runs undisturbed while on
void stall_at(int n);                  // at its n-th step from here the current fiber stops until the others are blocked (0: it does not)
int64_t now();                        // virtual nanoseconds since begin()
int self();
bool stands(int sig);                 // the signal, raised in the current fiber, does no harm (always so in a caller's own)
int64_t blocked();                    // virtual time the current fiber has spent blocked
uint64_t switches();
void error(const std::string &s);     // record a failure (first one is kept)
const std::string &first_error();
}
