// Controlled scheduler: serialises the threads of one process and decides at
// every synchronisation operation (mutex, condition variable, thread
// start/exit/join, future wait, sleep) which thread goes on. It interposes the
// C library's and libstdc++'s entry points, so the code under test is not
// touched. Time is virtual: it only advances when a timed wait expires.
#pragma once
#include <cstdint>
#include <string>
#include <vector>

namespace sched {

enum Mode {
    uniform,     // Uniformly random choice at every point.
    pct,         // Random thread priorities with a few random changes.
    main_first,  // The main thread runs whenever it can.
    main_last,   // The main thread runs only when nobody else can.
    replay       // Choices are given; afterwards: stay with the current one.
};

struct Options {
    Mode mode = uniform;
    std::uint64_t seed = 1;
    double p_timeout = 0.0;   // Chance to let a timed wait expire early.
    double p_spurious = 0.0;  // Chance of a spurious wake-up.
    int nr_changes = 3;       // pct: number of priority changes.
    int horizon = 120;        // pct: steps among which changes are spread.
    std::vector<int> prefix;  // replay.
    int max_steps = 400000;
    std::int64_t max_ms = 60000;  // Virtual time.
};

// Start managing: the calling thread becomes thread 0.
void start(Options const& options);
// Stop: from here on all calls go to the real functions.
void stop();
bool active();
bool internal();          // Inside the scheduler itself.
int self();               // Id of the calling thread, -1 if not managed.
std::int64_t now_ms();    // Virtual time.
void point();             // Explicit scheduling point.
int steps();
// Decisions taken: (number of alternatives, index chosen, was a preemption).
struct Choice { int nr; int chosen; int current; };
std::vector<Choice> const& choices();
int nr_threads_alive();
int nr_asleep(int first);  // Blocked for real, among threads first, ...
// Called (once) when no thread can ever go on, or when max_steps is exceeded.
// Must not return.
extern void (*on_stuck)(char const* what, std::string const& detail);

// Called for operations that order threads: 'A' (acquire) and 'L' (release) of
// an object, after the one and before the other; and for memory accesses 'R',
// 'W' of a number of bytes. By the thread that has the turn.
extern void (*on_event)(char kind, void const* object, int size);
inline void event(char kind, void const* object, int size=0)
{
    if(on_event) { on_event(kind, object, size); }
}

// See tsan_points.cc.
extern int access_rate;
void seed_accesses(std::uint32_t seed);

} // namespace sched
