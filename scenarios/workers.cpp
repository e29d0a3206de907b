// C20: hand-written workers and schedulers on the public context interface, several pools exchanging tasks.
#include "common.hpp"

#include <atomic>
#include <barrier>
#include <condition_variable>
#include <semaphore>
#include <stdexcept>

namespace {

constexpr int MAXT = 256;

int runs_body[MAXT], runs_after[MAXT]; // race checked by the simulator
int g_roots;

struct Hand; // the hand-written scheduler

/// Somewhere a task can be sent to.
struct Target {
  lf::worker_context *ctx = nullptr; // a worker ...
  lf::unit_pool *unit = nullptr;     // ... or a whole scheduler
  Hand *hand = nullptr;
  int tid = -1;      // the thread behind it
  int hand_idx = -1; // worker of the hand-written scheduler
};
std::vector<Target> g_target;
bool g_hop;

// ------------------------------------------------------------------------------------------------ hand-written workers

enum Mode { POLL, SLEEP, MIXED };

struct HandWorker {
  lf::worker_context *ctx = nullptr;
  std::counting_semaphore<1000> sem{0};
  std::thread th;
  int tid = -1;
  i64 notified = 0, submitted = 0; // NOSAN
};
NOSAN void bump(i64 &x) { x++; }

struct Hand {
  int n;
  Mode mode;
  int rounds;
  bool misuse, alloc;
  HandWorker w[4];
  std::atomic<bool> stop{false};
  std::barrier<> up, down, again;
  std::atomic<int> next{0};

  Hand(int n_, Mode m, int r, bool mis, bool al) : n(n_), mode(m), rounds(r), misuse(mis), alloc(al), up(n_ + 1), down(n_), again(n_ + 1) {}

  void submit(int i, lf::submit_handle h) {
    bump(w[i].submitted);
    w[i].ctx->schedule(h);
  }
  void schedule(lf::submit_handle h) { submit(next.fetch_add(1, std::memory_order_relaxed) % n, h); }
};
static_assert(lf::scheduler<Hand>);

/// Client use of the library from a thread that is not a worker.
inline constexpr auto leaf = [](auto, int x) -> lf::task<int> { co_return x + 1; };
template <class Sch>
void as_client(Sch &s, const char *when) {
  try {
    int r = lf::sync_wait(s, leaf, 41);
    SIM_CHECK("result", r == 42, "client call %s returned %d", when, r);
    sim_cover("worker_thread_as_client");
  } catch (lf::schedule_in_worker const &) {
    sim_fail("worker", "schedule_in_worker thrown on a thread that is not a worker (%s)", when);
  }
}

void expect_finalize_throws(lf::worker_context *c, const char *what) {
  bool ok = false;
  try {
    lf::finalize(c);
  } catch (std::runtime_error const &) {
    ok = true;
  }
  SIM_CHECK("worker", ok, "finalize %s did not throw", what);
}

void hand_main(Hand *S, int i, lf::unit_pool *client) {
  HandWorker &me = S->w[i];
  me.tid = sim_tid();
  for (int round = 0; round < S->rounds; ++round) {
    lf::worker_context *ctx = nullptr;
    bool const early = S->misuse && sim_choose(2);
    if (early && round == 0) expect_finalize_throws(nullptr, "of nothing before registration");
    while (!ctx) {
      auto tell = [p = &me, x = Payload(7), S] {
        x.check(7, "notification");
        bump(p->notified);
        p->sem.release();
      };
      lf::nullary_function_t fn = std::move(tell);
      if (S->alloc) sim_alloc_faults(4, 0);
      try {
        ctx = lf::worker_init(std::move(fn));
        sim_alloc_faults(0, 0);
      } catch (std::bad_alloc const &) {
        sim_alloc_faults(0, 0);
        sim_cover("registration_failed");
        if (client && sim_choose(2)) as_client(*client, "after a failed registration");
      }
    }
    if (!ctx) sim_fail("worker", "worker_init returned null");
    me.ctx = ctx;
    if (early) {
      bool threw = false;
      try {
        (void)lf::worker_init([] {});
      } catch (std::runtime_error const &) {
        threw = true;
      }
      SIM_CHECK("worker", threw, "double registration did not throw");
      expect_finalize_throws(nullptr, "of nothing");
      sim_cover("double_registration");
    }
    S->up.arrive_and_wait();
    if (early) expect_finalize_throws(S->w[(i + 1) % S->n].ctx == ctx ? nullptr : S->w[(i + 1) % S->n].ctx, "of another thread's worker");
    auto pop = [&] {
      lf::submit_handle h = ctx->try_pop_all();
      if (h) lf::resume(h);
      return h != nullptr;
    };
    auto steal = [&] {
      for (int k = 1; k < S->n; ++k) {
        auto s = S->w[(i + k) % S->n].ctx->try_steal();
        if (s) {
          lf::resume(*s);
          sim_cover("hand_steal");
          return true;
        }
      }
      return false;
    };
    if (S->mode == POLL) {
      while (!S->stop.load(std::memory_order_acquire)) {
        if (!pop() && !steal()) sim_point();
      }
    } else {
      for (;;) {
        me.sem.acquire();
        if (S->stop.load(std::memory_order_acquire)) break;
        while (pop() || (S->mode == MIXED && steal())) {
        }
      }
    }
    S->down.arrive_and_wait(); // nobody looks at our queues any more
    if (ctx->try_pop_all()) sim_fail("lost", "submitted work left in a worker that was told to stop");
    if (ctx->try_steal().code != lf::err::empty) sim_fail("lost", "forked work left in a worker that was told to stop");
    lf::finalize(ctx);
    if (S->misuse && sim_choose(2)) expect_finalize_throws(ctx, "of a finalised worker");
    if (client && sim_choose(2)) as_client(*client, "after unregistering");
    S->again.arrive_and_wait();
    S->again.arrive_and_wait(); // main has reset the round
  }
}

/// Explicit switch to a scheduler without exposed workers.
struct to_scheduler {
  Target const *t;
  static bool await_ready() { return false; }
  void await_suspend(lf::submit_handle h) const { t->unit ? t->unit->schedule(h) : t->hand->schedule(h); }
  static void await_resume() {}
};

// ------------------------------------------------------------------------------------------------ travelling tasks

/// A switch suspends, and is a submission to the target, unless the task is there already.
NOSAN void note_hop(Target &t, Hand *hand) {
  if (t.hand_idx >= 0 && hand->w[t.hand_idx].tid != sim_tid()) hand->w[t.hand_idx].submitted++;
}
Hand *g_hand;
u64 g_plan;

NOSAN void check_tid(Target &t) {
  if (t.tid >= 0 && t.tid != sim_tid()) sim_fail("switch", "task continued on thread %d instead of %d", sim_tid(), t.tid);
}

// id = root * 8 + heap index (1..7)
#define HOP(salt)                                                                                                      \
  do {                                                                                                                 \
    u64 hh = mix(g_plan + (salt), static_cast<u64>(id));                                                               \
    if (g_hop && hh % 3 != 0) {                                                                                        \
      Target &t = g_target[(hh >> 8) % g_target.size()];                                                               \
      if (t.ctx) {                                                                                                     \
        note_hop(t, g_hand);                                                                       \
        co_await lf::resume_on(t.ctx);                                                                                 \
        check_tid(t);                                                                                                  \
      } else {                                                                                                         \
        co_await to_scheduler{&t};                                                                                     \
        check_tid(t);                                                                                                  \
      }                                                                                                                \
      c.check(id, "after a switch");                                                                                   \
    }                                                                                                                  \
  } while (0)

inline constexpr auto travel = [](auto self, int id, int depth) -> lf::task<u64> {
  Canary<40> c;
  c.arm(id);
  runs_body[id]++;
  HOP(1);
  if (depth == 0) {
    sim_point();
    c.check(id, "leaf");
    runs_after[id]++;
    if (mix(g_plan + 9, static_cast<u64>(id)) % 7 == 0) throw Err(id);
    co_return mix(static_cast<u64>(id), 3);
  }
  int const base = id & ~7, k = id & 7;
  u64 a = 0, b = 0;
  bool threw = false;
  try {
    co_await lf::fork(&a, self)(base + 2 * k, depth - 1);
    HOP(2);
    co_await lf::call(&b, self)(base + 2 * k + 1, depth - 1);
    HOP(3);
  } catch (...) {
    sim_fail("exception", "dispatch or switch threw in task %d", id);
  }
  try {
    co_await lf::join;
  } catch (Err const &) {
    threw = true;
  }
  for (int kid = 2 * k; kid <= 2 * k + 1; ++kid)
    if (runs_body[base + kid] != 1 || runs_after[base + kid] != 1) sim_fail("join", "task %d: child %d not finished at the join", id, base + kid);
  HOP(4);
  c.check(id, "after the join");
  runs_after[id]++;
  if (threw) throw Err(id);
  co_return mix(a + 3 * b, static_cast<u64>(id));
};
/// model: value, or -1 for "throws"
NOSAN bool model(int id, int depth, u64 &out) {
  if (depth == 0) {
    if (mix(g_plan + 9, static_cast<u64>(id)) % 7 == 0) return false;
    out = mix(static_cast<u64>(id), 3);
    return true;
  }
  int const base = id & ~7, k = id & 7;
  u64 a = 0, b = 0;
  bool x = model(base + 2 * k, depth - 1, a), y = model(base + 2 * k + 1, depth - 1, b);
  out = mix(a + 3 * b, static_cast<u64>(id));
  return x && y;
}

inline constexpr auto probe = [](auto, Target *t) -> lf::task<int> {
  if (t->ctx) {
    note_hop(*t, g_hand);
    co_await lf::resume_on(t->ctx);
  }
  co_return sim_tid();
};

template <class Sch>
void run_root(Sch &s, int r) {
  int depth = static_cast<int>(mix(g_plan, static_cast<u64>(r)) % 3), id = r * 8 + 1;
  u64 want = 0, got = 0;
  bool ok = model(id, depth, want), threw = false;
  try {
    got = lf::sync_wait(s, travel, id, depth);
  } catch (Err const &e) {
    threw = true;
    SIM_CHECK("exception", e.origin == id, "root %d threw Err(%d)", r, e.origin);
  }
  if (threw == ok) sim_fail("exception", "root %d %s", r, ok ? "threw although no task failed" : "returned although a task failed");
  if (ok && got != want) sim_fail("result", "root %d returned %lx instead of %lx", r, got, want);
  if (runs_body[id] != 1 || runs_after[id] != 1) sim_fail("once", "root %d ran %d time(s)", r, runs_body[id]);
}

template <class P>
void add_pool_targets(P &p) {
  for (auto *c : contexts_of(p)) {
    Target t;
    t.ctx = c;
    g_target.push_back(t);
    g_target.back().tid = lf::sync_wait(p, probe, &g_target.back());
  }
}
/// Every worker of the pool has left whatever it was doing for the tasks before.
template <class P>
void flush(P &p) {
  for (auto *c : contexts_of(p)) {
    Target t;
    t.ctx = c;
    for (auto &g : g_target)
      if (g.ctx == c) t.tid = g.tid, t.hand_idx = g.hand_idx;
    int tid = lf::sync_wait(p, probe, &t);
    if (tid != t.tid) sim_fail("switch", "flush ran on thread %d instead of %d", tid, t.tid);
  }
}

void one_setting(Hand *hand, lf::unit_pool *unit, lf::lazy_pool *lazy, lf::busy_pool *busy) {
  g_target.clear();
  g_target.reserve(32);
  if (lazy) add_pool_targets(*lazy);
  if (busy) add_pool_targets(*busy);
  if (unit) {
    Target t;
    t.unit = unit;
    t.tid = lf::sync_wait(*unit, probe, &t);
    g_target.push_back(t);
  }
  if (hand) {
    for (int i = 0; i < hand->n; ++i) {
      Target t;
      t.ctx = hand->w[i].ctx;
      t.tid = hand->w[i].tid;
      t.hand_idx = i;
      g_target.push_back(t);
    }
    if (hand->mode != SLEEP) { // a task forked on a sleeping worker that never steals is fine too, but keep some variety
      Target t;
      t.hand = hand;
      g_target.push_back(t);
    }
  }
  int nroots = 1 + static_cast<int>(sim_choose(4));
  int base = g_roots;
  g_roots += nroots;
  if (g_roots * 8 >= MAXT) sim_fail("harness", "too many roots");
  // roots are started by one client per scheduler: schedule() of the pools is not concurrent
  int kinds[4], nk = 0;
  if (hand) kinds[nk++] = 0;
  if (unit) kinds[nk++] = 1;
  if (lazy) kinds[nk++] = 2;
  if (busy) kinds[nk++] = 3;
  int where[8];
  for (int r = 0; r < nroots; ++r) where[r] = kinds[sim_choose(static_cast<u32>(nk))];
  auto client = [&](int kind) {
    for (int r = 0; r < nroots; ++r) {
      if (where[r] != kind) continue;
      if (kind == 0) run_root(*hand, base + r);
      if (kind == 1) run_root(*unit, base + r);
      if (kind == 2) run_root(*lazy, base + r);
      if (kind == 3) run_root(*busy, base + r);
    }
  };
  {
    std::vector<std::thread> cl;
    for (int k = 1; k < nk; ++k) cl.emplace_back(client, kinds[k]);
    client(kinds[0]);
    for (auto &t : cl) t.join();
  }
  // everyone is out of everyone else's notification function before anything may go away
  if (lazy) flush(*lazy);
  if (busy) flush(*busy);
  if (unit) as_client(*unit, "flush");
}
// contexts_of for the hand-written scheduler
void flush_hand(Hand &h) {
  for (int i = 0; i < h.n; ++i) {
    struct One {
      Hand *h;
      int i;
      void schedule(lf::submit_handle s) { h->submit(i, s); }
    } one{&h, i};
    Target t;
    int tid = lf::sync_wait(one, probe, &t);
    if (tid != h.w[i].tid) sim_fail("switch", "submission to worker %d ran elsewhere", i);
  }
}

NOSAN void check_notified(Hand &h) {
  for (int i = 0; i < h.n; ++i)
    if (h.w[i].notified != h.w[i].submitted)
      sim_fail("notify", "worker %d was notified %ld times of %ld submissions", i, h.w[i].notified, h.w[i].submitted);
}
NOSAN void reset_run() {
  memset(runs_body, 0, sizeof runs_body), memset(runs_after, 0, sizeof runs_after);
  g_roots = 0;
}

void sc_workers() {
  reset_run();
  g_plan = sim_choose(1u << 20);
  g_hop = sim_choose(5) != 0;
  static const char *topo[] = {"pack:1 core:4 pu:1", "pack:2 [numa] core:2 pu:1"};
  setenv("HWLOC_SYNTHETIC", topo[sim_choose(2)], 1);
  int const n = 1 + static_cast<int>(sim_choose(3));
  Mode const mode = static_cast<Mode>(sim_choose(3));
  int const rounds = 1 + static_cast<int>(sim_choose(2));
  Hand hand(n, mode, rounds, sim_choose(2), sim_choose(2));
  int const extra = static_cast<int>(sim_choose(8)); // bit 0 unit, 1 lazy, 2 busy
  sim_describe("%d hand-written workers (%s), %d round(s), other pools %d%s%s, hops=%d", n, mode == POLL ? "poll" : mode == SLEEP ? "sleep" : "mixed",
               rounds, extra, hand.misuse ? ", misuse" : "", hand.alloc ? ", failing registration" : "", g_hop);
  std::unique_ptr<lf::unit_pool> unit;
  std::unique_ptr<lf::lazy_pool> lazy;
  std::unique_ptr<lf::busy_pool> busy;
  if (extra & 1) unit = std::make_unique<lf::unit_pool>();
  if (extra & 2) lazy = std::make_unique<lf::lazy_pool>(1 + sim_choose(2));
  if (extra & 4) busy = std::make_unique<lf::busy_pool>(1 + sim_choose(2));
  for (int i = 0; i < n; ++i) hand.w[i].th = std::thread(hand_main, &hand, i, unit.get());
  for (int r = 0; r < rounds; ++r) {
    hand.up.arrive_and_wait();
    g_hand = &hand;
    one_setting(&hand, unit.get(), lazy.get(), busy.get());
    flush_hand(hand);
    hand.stop.store(true, std::memory_order_release);
    for (int i = 0; i < n; ++i) hand.w[i].sem.release();
    hand.again.arrive_and_wait();
    hand.stop.store(false, std::memory_order_relaxed);
    check_notified(hand);
    for (int i = 0; i < n; ++i)
      while (hand.w[i].sem.try_acquire()) {
      }
    hand.again.arrive_and_wait();
    sim_cover("round");
  }
  // the pools go in any order, the hand-written workers have already unregistered
  int order = static_cast<int>(sim_choose(3));
  if (order == 0) lazy.reset();
  if (order == 1) busy.reset();
  for (int i = 0; i < n; ++i) hand.w[i].th.join();
  unit.reset();
  if (g_hop) sim_nontrivial();
  g_target = std::vector<Target>();
  check_no_user_leak();
}

/// Several pools of the library exchanging tasks.
void sc_pools() {
  reset_run();
  g_plan = sim_choose(1u << 20);
  g_hop = true;
  setenv("HWLOC_SYNTHETIC", sim_choose(2) ? "pack:1 core:4 pu:1" : "pack:2 [numa] core:2 pu:1", 1);
  int extra = 1 + static_cast<int>(sim_choose(7));
  sim_describe("pools %d", extra);
  std::unique_ptr<lf::unit_pool> unit;
  std::unique_ptr<lf::lazy_pool> lazy;
  std::unique_ptr<lf::busy_pool> busy;
  if (extra & 1) unit = std::make_unique<lf::unit_pool>();
  if (extra & 2) lazy = std::make_unique<lf::lazy_pool>(1 + sim_choose(3));
  if (extra & 4) busy = std::make_unique<lf::busy_pool>(1 + sim_choose(3));
  g_hand = nullptr;
  one_setting(nullptr, unit.get(), lazy.get(), busy.get());
  switch (sim_choose(3)) {
    case 0: lazy.reset(); break;
    case 1: unit.reset(); break;
    default: busy.reset(); break;
  }
  sim_nontrivial();
  lazy.reset(), unit.reset(), busy.reset();
  g_target = std::vector<Target>();
  check_no_user_leak();
}

/// A pool is destroyed as soon as every task that ever visited it has finished, while a worker of another pool may still be
/// inside the notification of the task's last hop.
void sc_cross_destroy() {
  setenv("HWLOC_SYNTHETIC", "pack:1 core:4 pu:1", 1);
  lf::unit_pool home;
  for (int k = 0; k < 4; ++k) {
    lf::lazy_pool other(1);
    Target t;
    t.ctx = other.contexts()[0];
    static auto hop = [](auto, lf::worker_context *w) -> lf::task<void> { co_await lf::resume_on(w); };
    lf::sync_wait(home, hop, t.ctx);
  }
  sim_nontrivial();
}

} // namespace

SimScenario sim_scenarios[] = {{"workers", sc_workers}, {"pools", sc_pools}, {"cross_destroy", sc_cross_destroy}, {nullptr, nullptr}};
