// Extremes: fork chains deeper than the task queues' initial capacity (C01, C05, C06) and scopes stolen from more often
// than a 16-bit counter can tell (C02).
#include "common.hpp"

#include <atomic>

namespace {

// ------------------------------------------------------------------------------------------------ deep

struct DeepCfg {
  int depth, depth2, alloc_at, alloc_den, naps, every;
};
DeepCfg D;
int *g_entered; // NOSAN counters, one per level
NOSAN void enter(int d) { g_entered[d]++; }

inline constexpr auto side = [](auto, int d) -> lf::task<u64> {
  if (D.naps && d % 7 == 0) sim_point();
  co_return mix(static_cast<u64>(d), 21);
};

inline constexpr auto chain = [](auto self, int d, Payload p) -> lf::task<u64> {
  sim_alloc_faults(0, 0);
  enter(d);
  if (d == 0) co_return 1;
  Canary<24> c;
  c.arm(d);
  u64 deep = 0, wide = 0;
  for (bool fa = D.alloc_at && (d >= D.alloc_at - 3 && d <= D.alloc_at + 3);;) {
    try {
      if (fa) sim_alloc_faults(static_cast<u32>(D.alloc_den), 0);
      co_await lf::fork(&deep, self)(d - 1, Payload(d - 1));
      sim_alloc_faults(0, 0);
      break;
    } catch (std::bad_alloc const &) {
      sim_alloc_faults(0, 0);
      if (g_entered[d - 1]) sim_fail("bad-alloc", "the fork at depth %d threw bad_alloc although its child ran", d);
      sim_cover("deep_fork_bad_alloc");
      fa = false;
    }
  }
  if (d % D.every == 0) co_await lf::fork(&wide, side)(d);
  co_await lf::join;
  p.check(d, "after the join");
  c.check(d, "after the join");
  if (d % D.every == 0 && wide != mix(static_cast<u64>(d), 21)) sim_fail("result", "side task at depth %d", d);
  co_return mix(deep, static_cast<u64>(d));
};

NOSAN u64 chain_model(int d) {
  u64 r = 1;
  for (int i = 1; i <= d; ++i) r = mix(r, static_cast<u64>(i));
  return r;
}

void sc_deep() {
  static const int base[] = {1024, 2048, 64, 512};
  D = {};
  D.depth = base[sim_choose(4)] - 8 + static_cast<int>(sim_choose(40));
  D.naps = static_cast<int>(sim_choose(2));
  D.every = 20 + static_cast<int>(sim_choose(200));
  if (sim_choose(2)) {
    // levels count down, the queue grows while level depth-1024 (or -2048) forks
    D.alloc_at = D.depth > 1030 ? D.depth - 1024 + static_cast<int>(sim_choose(3)) - 1 : 1 + static_cast<int>(sim_choose(static_cast<u32>(D.depth)));
    D.alloc_den = 1 + static_cast<int>(sim_choose(3));
  }
  sim_describe("depth=%d alloc_at=%d/%d ", D.depth, D.alloc_at, D.alloc_den);
  g_entered = static_cast<int *>(calloc(static_cast<size_t>(D.depth) + 2, sizeof(int)));
  with_pool(P_ALL, [&](auto &pool) {
    u64 r = lf::sync_wait(pool, chain, D.depth, Payload(D.depth));
    if (r != chain_model(D.depth)) sim_fail("result", "chain of depth %d returned the wrong value", D.depth);
    if (D.depth > 1000) sim_nontrivial();
  }, 2);
  for (int i = 0; i <= D.depth; ++i)
    if (g_entered[i] != 1) sim_fail("exactly-once", "level %d ran %d times", i, g_entered[i]);
  free(g_entered);
  check_no_user_leak();
}

// ------------------------------------------------------------------------------------------------ steals

std::atomic<int> *g_progress; // continuation reached child i+1
int g_kids, g_finished;
NOSAN void finished() { g_finished++; }
NOSAN int n_finished() { return g_finished; }
bool g_parent_done;

/// Does not finish before somebody stole the parent's continuation and forked on.
inline constexpr auto kid = [](auto, int i) -> lf::task<void> {
  while (g_progress->load(std::memory_order_relaxed) <= i) sim_point();
  finished();
  co_return;
};
inline constexpr auto loop = [](auto, int n) -> lf::task<int> {
  for (int i = 0; i < n; ++i) {
    co_await lf::fork(kid)(i);
    g_progress->store(i + 1, std::memory_order_relaxed);
    if (g_parent_done) sim_fail("exactly-once", "the parent's continuation ran twice");
  }
  co_await lf::join;
  if (g_parent_done) sim_fail("exactly-once", "the code after the join ran twice");
  g_parent_done = true;
  if (n_finished() != n) sim_fail("barrier", "join passed with %d of %d children finished", n_finished(), n);
  co_return n;
};

void sc_steals() {
  static const int sizes[] = {65536, 65535, 65534, 65537, 65600, 300};
  int n = sizes[sim_choose(6)];
  sim_describe("%d children, every continuation stolen ", n);
  sim_budget(1u << 20, 60u << 20);
  g_finished = 0, g_parent_done = false;
  std::atomic<int> progress{0};
  g_progress = &progress;
  {
    lf::busy_pool pool(2);
    int r = lf::sync_wait(pool, loop, n);
    if (r != n) sim_fail("result", "wrong value");
  }
  if (n > 60000) sim_nontrivial();
}

} // namespace

SimScenario sim_scenarios[] = {{"deep", sc_deep}, {"steals", sc_steals}, {nullptr, nullptr}};
