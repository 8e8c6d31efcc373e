// mc: controlled scheduler for stateless model checking of multi-threaded code.
//
// The harness is compiled with clang's -fsanitize=thread instrumentation and linked against
// mc_rt.cpp instead of the ThreadSanitizer runtime. Threads are fibers of one OS thread; a switch
// can happen only before a lock operation or an atomic operation (and at mc::point()), and every
// decision is a choice of the vx explorer, so all schedules within the preemption bound are
// enumerated. All memory accesses are checked with vector clocks: two conflicting accesses that
// are not ordered by happens-before (locks, C++ atomics with their memory orders, start/join) are
// reported as a data race, whatever the order in which they happened to run. Because executions
// without races are equivalent to ones that switch only at synchronisation, this covers all
// interleavings. Memory comes from an arena without reuse: use after free, double free and access
// out of bounds are reported too, as are deadlocks and misuse of locks.
#pragma once
#include "vx.hpp"
namespace mc {
constexpr int MAXT = 4;
struct Opts {
    int  preempt      = 3;     // bound on preemptive switches
    bool unlock_point = false; // also switch before releases (needed when try_lock is used)
    bool prefer_writers = false; // a waiting writer blocks new readers
};
void begin();                                   // start of an execution: empty arena
void end();                                     // all fibers done: checks leaks unless told not to
long live_blocks();                             // blocks allocated in this execution and not freed
void spawn_raw(void (*fn)(void*), void* arg);
void run(vx::Ctx& x, const Opts& o);            // runs all spawned fibers to completion
void point();                                   // explicit switch point
int  self();                                    // current fiber, -1: none
uint64_t tick();                                // logical time
void set_arena(bool on);                        // allocate from the arena (on between begin and end)
extern uint64_t total_switches, total_points, total_accesses;
template<class F> void spawn(F& f) { spawn_raw([](void* p) { (*(F*)p)(); }, &f); }
}
