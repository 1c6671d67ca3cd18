// Cooperative scheduler: every context switch is a recorded symbolic choice, so the solver/executor covers all
// interleavings of the instrumented points (within the preemption bound) and the replay follows the same schedule.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
void sched_init(int preemptions);                       // start of a concurrent section; forced switches are free
int sched_spawn(void (*fn)(void*), void* arg);          // runnable thread
void sched_join_all();                                  // run everything to completion; reports deadlock
void sched_yield_point();                               // possible preemption
void sched_block(const void* on);                       // wait until sched_wake(on)
void sched_pause();                                     // sleep in a retry loop: the others run first
void sched_progress();                                  // something changed: sleepers look again
int sched_wake(const void* on, int all);                // returns number woken
void sched_watch(const void* p, size_t n);              // accesses to this range by instrumented code are preemption points
void sched_unwatch_all();
void sched_step_limit(int n);                           // more accesses than that by instrumented code: an endless loop (0: no limit)
int sched_self();
bool sched_active();
bool sched_thread_done(int id);
void sched_unlocked_ok(bool ok);                        // (race detection) see sched.cc
}
