// Interface between scenarios (compiled with the libfork headers and -fsanitize=thread callbacks) and the
// deterministic simulator (sim/simrt.cpp).  Nothing here is a scheduling point unless it says so.
#pragma once
#include <cstddef>
#include <cstdint>

extern "C" {

struct SimScenario {
  const char *name;
  void (*fn)();
};
// Every scenario library defines this table, terminated by {nullptr,nullptr}.
extern SimScenario sim_scenarios[];

/// Workload choice in [0,n), recorded in the replay file and shrunk towards 0.
uint32_t sim_choose(uint32_t n);
/// Environment fault decision: true with probability 1/den while faults are on (default: false).
int sim_fault(const char *kind, uint32_t den);
/// As sim_fault, but a 1-in-den decision that is part of the workload (survives the fair tail).
/// Report a violation of class `cls`; does not return.
[[noreturn]] void sim_fail(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
/// Rare-condition probe.
void sim_cover(const char *probe);
/// The run exercised what the property is about.
void sim_nontrivial();
/// Free text describing the generated workload (goes to the evidence samples and replay files).
void sim_describe(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
/// Enable injected allocation failures for the *calling* simulated thread or for all of them.
/// den == 0 turns them off.
void sim_alloc_faults(uint32_t den, int all_threads);
/// Fail exactly the n-th (0 based) eligible allocation from now on in every thread (-1: off).
void sim_alloc_faults_min(uint32_t den, uint64_t min_size); // on every thread, allocations of at least min_size bytes
void sim_alloc_fail_nth(int64_t n, uint64_t min_size);
/// From the calling thread's n-th thread creation on (counted from now), fail its allocations with probability 1/den.
void sim_alloc_faults_after_spawns(uint64_t n, uint32_t den);
/// sim_alloc_count() when the first thread after that call was created.
uint64_t sim_alloc_count_at_spawn();
int64_t sim_alloc_failures();
/// Allocations seen so far (calls).
uint64_t sim_alloc_count();
/// Live heap blocks / bytes owned by the simulated program.
uint64_t sim_live_blocks();
uint64_t sim_live_bytes();
/// Simulated thread id (0 = the scenario's main thread), step counter.
int sim_tid();
uint64_t sim_step();
/// Explicit scheduling point.
void sim_point();
/// Override the budget: steps until faults stop and the scheduler becomes fair / fair steps until the run is
/// declared stuck.
void sim_budget(uint64_t fair_after, uint64_t fair_budget);
/// Disable the end of run leak check.
void sim_no_leak_check();
/// Number of hardware threads reported to the program (std::thread::hardware_concurrency()).
void sim_set_hw_threads(unsigned n);
/// Number of CPU-binding calls seen, and make them fail with probability 1/den.
uint64_t sim_bind_calls();
void sim_bind_faults(uint32_t den);
/// pthread_create failures with probability 1/den
void sim_spawn_faults(uint32_t den);
/// Failures inside hwloc (creating and loading a topology, narrowing sets) with probability 1/den; returns the old setting.
uint32_t sim_hwloc_faults(uint32_t den);
int sim_hwloc_fault(const char *kind); // one such decision
uint64_t sim_hwloc_failures();
uint64_t sim_futex_sleeps();
/// Number of simulated threads currently blocked (futex/join/mutex/cond).
int sim_blocked_threads();
/// Simulated threads that have not finished (including the main one).
int sim_live_threads();
/// The run stops scheduling here until every other thread is blocked (true) or `max` steps passed (false)
int sim_wait_quiescent(uint64_t max);
/// 1 if the run uses the weak memory mode
int sim_weak();
/// Abandon the run as inconclusive (not counted as an evaluation).
[[noreturn]] void sim_inconclusive(const char *why);
/// forget race-detection history of [p, p+n): used when test code hands memory over out of band.
void sim_forget(const void *p, size_t n);
/// exception objects are allocated by libstdc++; keep scenario-level counters in non-instrumented memory
int64_t *sim_counter(const char *name); // per-run named counter, zero initialised, never race checked
}

#define SIM_CHECK(cls, cond, ...)                                                                                      \
  do {                                                                                                                 \
    if (!(cond)) {                                                                                                     \
      sim_fail(cls, __VA_ARGS__);                                                                                      \
    }                                                                                                                  \
  } while (0)
