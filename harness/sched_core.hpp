// interface of the controlled scheduler (implemented in the uninstrumented sched_core.cpp)
#pragma once
#include <cstddef>
namespace sched {
constexpr int MAXT = 6;
extern int preemption_bound;  // -1: all schedules (reduced by sleep sets); else all schedules with at most so many preemptions
extern bool redundant;        // the schedule is equivalent to another one which is explored too
void core_begin(int n);
void core_run();
void core_thread_begin(int i);
void core_thread_end();
void core_quiet();
void core_pool_wait(int* word);
void core_pool_wake(int* word);
unsigned long tick();         // a moment in the current execution
int self();                   // index of the running thread
void user_point(const void* r);
void pin(int cpu);
void* mem_alloc(size_t n, size_t a);
void mem_free(void* p, size_t n);
long mem_blocks();
void count(long n);           // things of the harness
long counted();
}
