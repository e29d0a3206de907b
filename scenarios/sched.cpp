// Futures and schedulers: C08 future contract, C12/C13 pool liveness, C14 unit_pool, C15 pool life cycle.
#include "common.hpp"

#include <algorithm>
#include <atomic>
#include <condition_variable>
#include <functional>

namespace {

// ------------------------------------------------------------------------------------------------ small task zoo

struct TaskLog {
  int started, finished, tid;
};
TaskLog TL[64];
int g_next;

int new_id() {
  int id = g_next++;
  if (id >= 64) sim_fail("harness", "too many tasks");
  return id;
}
NOSAN void reset_log() { memset(TL, 0, sizeof TL), g_next = 0; }

/// Recursive fork-join sum with observable steps.
inline constexpr auto sum_tree = [](auto self, int depth, int id) -> lf::task<u64> {
  if (depth == 0) {
    sim_point();
    co_return mix(static_cast<u64>(id), 17);
  }
  u64 a, b;
  co_await lf::fork(&a, self)(depth - 1, 2 * id);
  co_await lf::call(&b, self)(depth - 1, 2 * id + 1);
  co_await lf::join;
  co_return mix(a, b);
};
NOSAN u64 sum_model(int depth, int id) {
  if (depth == 0) return mix(static_cast<u64>(id), 17);
  return mix(sum_model(depth - 1, 2 * id), sum_model(depth - 1, 2 * id + 1));
}

struct NoDefault {
  explicit NoDefault(int x) : v(x) {}
  NoDefault(NoDefault &&) = default;
  auto operator=(NoDefault &&) -> NoDefault & = default;
  int v;
};

int g_ref_target[64];

// A gate a task can be held at by the client, to make "not finished yet" a fact.
std::atomic<int> *g_gate; // per task
void pass_gate(int id) {
  while (g_gate[id].load(std::memory_order_acquire)) sim_point();
}

inline constexpr auto t_u64 = [](auto, int id, Payload p, int depth) -> lf::task<u64> {
  p.check(id, "task");
  TL[id].started++;
  pass_gate(id);
  u64 r = co_await lf::just(sum_tree)(depth, 1);
  TL[id].finished++;
  co_return r;
};
inline constexpr auto t_void = [](auto, int id, Payload p, int depth) -> lf::task<void> {
  p.check(id, "task");
  TL[id].started++;
  pass_gate(id);
  if (depth) co_await lf::just(sum_tree)(depth, 1);
  TL[id].finished++;
};
inline constexpr auto t_str = [](auto, int id, Payload p) -> lf::task<std::string> {
  p.check(id, "task");
  TL[id].started++;
  pass_gate(id);
  std::string s(static_cast<size_t>(20 + id), static_cast<char>('a' + id % 26));
  TL[id].finished++;
  co_return s;
};
inline constexpr auto t_uptr = [](auto, int id, Payload p) -> lf::task<std::unique_ptr<int>> {
  p.check(id, "task");
  TL[id].started++;
  pass_gate(id);
  TL[id].finished++;
  co_return std::make_unique<int>(id + 5);
};
inline constexpr auto t_ref = [](auto, int id, Payload p) -> lf::task<int &> {
  p.check(id, "task");
  TL[id].started++;
  pass_gate(id);
  TL[id].finished++;
  co_return g_ref_target[id];
};
inline constexpr auto t_nodef = [](auto, int id, Payload p) -> lf::task<NoDefault> {
  p.check(id, "task");
  TL[id].started++;
  pass_gate(id);
  TL[id].finished++;
  co_return NoDefault{id * 3};
};
inline constexpr auto t_throw = [](auto, int id, Payload p, int depth) -> lf::task<u64> {
  p.check(id, "task");
  TL[id].started++;
  pass_gate(id);
  u64 r = 0;
  if (depth) r = co_await lf::just(sum_tree)(depth, 1);
  TL[id].finished++;
  if (r != 12345) throw Err(id);
  co_return r;
};

// ------------------------------------------------------------------------------------------------ C08 futures

enum FKind { F_U64, F_VOID, F_STR, F_UPTR, F_REF, F_NODEF, F_THROW, F_KINDS };

NOSAN void check_ran(int id, const char *when) {
  if (TL[id].started != 1 || TL[id].finished != 1)
    sim_fail("future", "task %d started %d time(s), finished %d time(s) %s", id, TL[id].started, TL[id].finished, when);
}
// instrumented: what the task wrote must be visible
void check_visible(int id, const char *when) {
  if (TL[id].started != 1 || TL[id].finished != 1)
    sim_fail("future", "task %d: effects not visible %s (started %d finished %d)", id, when, TL[id].started, TL[id].finished);
}

template <class R>
void get_and_check(lf::future<R> &f, int id, int kind, int depth) {
  bool threw = false;
  try {
    if constexpr (std::is_void_v<R>) {
      f.get();
    } else {
      decltype(auto) r = f.get();
      if constexpr (std::is_same_v<R, u64>)
        SIM_CHECK("future", r == sum_model(depth, 1), "task %d: get() returned the wrong value", id);
      else if constexpr (std::is_same_v<R, std::string>)
        SIM_CHECK("future", r == std::string(static_cast<size_t>(20 + id), static_cast<char>('a' + id % 26)), "wrong string");
      else if constexpr (std::is_same_v<R, std::unique_ptr<int>>)
        SIM_CHECK("future", r && *r == id + 5, "wrong unique_ptr");
      else if constexpr (std::is_same_v<R, int &>)
        SIM_CHECK("future", &r == &g_ref_target[id], "wrong reference");
      else
        SIM_CHECK("future", r.v == id * 3, "wrong NoDefault");
    }
  } catch (Err const &e) {
    threw = true;
    SIM_CHECK("future", kind == F_THROW && e.origin == id, "task %d: get() threw Err(%d)", id, e.origin);
  }
  if (!threw && kind == F_THROW) sim_fail("future", "task %d threw, get() returned", id);
  check_visible(id, "after get()");
}

template <class R>
void expect_empty(lf::future<R> &f, int id) {
  bool ok = false;
  try {
    (void)f.get();
  } catch (lf::empty_future const &) {
    ok = true;
  }
  SIM_CHECK("future", ok, "task %d: second get() did not throw empty_future", id);
  sim_cover("second_get");
}

template <class R>
void expect_broken(lf::future<R> &f, const char *what) {
  bool a = false, b = false;
  SIM_CHECK("future", !f.valid(), "%s future is valid", what);
  try {
    f.wait();
  } catch (lf::broken_future const &) {
    a = true;
  }
  try {
    (void)f.get();
  } catch (lf::broken_future const &) {
    b = true;
  }
  SIM_CHECK("future", a && b, "%s future: wait/get did not throw broken_future", what);
  sim_cover("broken_future");
}

/// One random history of operations on a future.
template <class R>
void history(lf::future<R> f, int id, int kind, int depth, bool gated) {
  SIM_CHECK("future", f.valid(), "fresh future invalid");
  bool waited = false, got = false;
  bool open = !gated;
  auto need_open = [&] {
    if (!open) {
      if (g_gate[id].load(std::memory_order_relaxed) && TL[id].finished) sim_fail("future", "task passed a closed gate");
      g_gate[id].store(0, std::memory_order_release);
      open = true;
    }
  };
  int steps = static_cast<int>(sim_choose(5));
  for (int i = 0; i < steps; ++i) {
    switch (sim_choose(5)) {
      case 0:
        need_open();
        f.wait();
        waited = true;
        check_visible(id, "after wait()");
        break;
      case 1: {
        need_open();
        if (got) {
          expect_empty(f, id);
        } else {
          get_and_check(f, id, kind, depth);
          waited = got = true;
        }
        break;
      }
      case 2: {
        lf::future<R> g = std::move(f);
        expect_broken(f, "moved-from");
        SIM_CHECK("future", g.valid(), "moved-to future invalid");
        f = std::move(g);
        expect_broken(g, "moved-from");
        break;
      }
      case 3:
        SIM_CHECK("future", f.valid(), "future lost its state");
        break;
      default: { // hand it to another thread and back
        bool use = sim_choose(2) != 0 && !got;
        if (use) need_open();
        std::thread t([&, g = std::move(f)]() mutable {
          if (use) {
            if (sim_choose(2)) g.wait();
            get_and_check(g, id, kind, depth);
          }
          f = std::move(g);
        });
        t.join();
        if (use) waited = got = true, sim_cover("get_in_other_thread");
        break;
      }
    }
  }
  switch (sim_choose(3)) {
    case 0: // destroy, must block
    {
      if (!open && sim_choose(2)) { // opened by somebody else while the destructor blocks
        std::thread t([&] {
          for (int i = 0; i < 20; ++i) sim_point();
          g_gate[id].store(0, std::memory_order_release);
        });
        { lf::future<R> dead = std::move(f); }
        check_visible(id, "after its future was destroyed");
        sim_cover("destroy_blocked");
        t.join();
      } else {
        need_open();
        { lf::future<R> dead = std::move(f); }
        check_visible(id, "after its future was destroyed");
      }
      break;
    }
    case 1: // detach, must not block even while the task cannot finish
      f.detach();
      expect_broken(f, "detached");
      if (!open) {
        sim_cover("detached_while_gated");
        if (!waited && TL[id].finished) sim_fail("future", "task passed a closed gate");
      }
      need_open();
      break;
    default:
      need_open();
      if (!got) get_and_check(f, id, kind, depth);
      expect_empty(f, id);
      f.wait(); // still fine
      break;
  }
}

template <class Sch, class F>
void spawn_history(Sch &&sch, int kind, int depth, bool gated, F const &between) {
  int id = new_id();
  g_gate[id].store(gated ? 1 : 0, std::memory_order_relaxed);
  sim_describe("task %d kind %d depth %d%s", id, kind, depth, gated ? " gated" : "");
  switch (kind) {
    case F_U64: { auto f = lf::schedule(sch, t_u64, id, Payload(id), depth); between(); history(std::move(f), id, kind, depth, gated); break; }
    case F_VOID: { auto f = lf::schedule(sch, t_void, id, Payload(id), depth); between(); history(std::move(f), id, kind, depth, gated); break; }
    case F_STR: { auto f = lf::schedule(sch, t_str, id, Payload(id)); between(); history(std::move(f), id, kind, depth, gated); break; }
    case F_UPTR: { auto f = lf::schedule(sch, t_uptr, id, Payload(id)); between(); history(std::move(f), id, kind, depth, gated); break; }
    case F_REF: { auto f = lf::schedule(sch, t_ref, id, Payload(id)); between(); history(std::move(f), id, kind, depth, gated); break; }
    case F_NODEF: { auto f = lf::schedule(sch, t_nodef, id, Payload(id)); between(); history(std::move(f), id, kind, depth, gated); break; }
    default: { auto f = lf::schedule(sch, t_throw, id, Payload(id), depth); between(); history(std::move(f), id, kind, depth, gated); break; }
  }
}

/// Detached tasks must have finished before the pool may be destroyed.
// polling that is not synchronisation in the eyes of the race detector
NOSAN void await_all_nosan() {
  for (int i = 0; i < g_next; ++i)
    while (__atomic_load_n(&TL[i].finished, __ATOMIC_ACQUIRE) != 1) sim_point();
}
NOSAN void await_task(int id) {
  while (__atomic_load_n(&TL[id].finished, __ATOMIC_ACQUIRE) != 1) sim_point();
}

struct Gates {
  std::atomic<int> g[64] = {};
  Gates() { g_gate = g; }
};

void sc_future() {
  reset_log();
  Gates gates;
  with_pool(
      P_ALL,
      [&](auto &pool) {
        int n = 1 + static_cast<int>(sim_choose(4));
        for (int i = 0; i < n; ++i)
          spawn_history(pool, static_cast<int>(sim_choose(F_KINDS)), static_cast<int>(sim_choose(3)), sim_choose(3) == 0, [] {});
        await_all_nosan();
        sim_nontrivial();
      },
      3);
  for (int i = 0; i < g_next; ++i) check_ran(i, "in total");
  check_no_user_leak();
}

// --- schedule from inside a worker, throwing schedulers

template <class P>
struct InWorker {
  auto operator()(auto, P *pool, int id) const -> lf::task<int> {
    TL[id].started++;
    int n = 0;
    for (int k = 0; k < 3; ++k) {
      int child = new_id();
      try {
        if (k == 0) (void)lf::sync_wait(*pool, t_u64, child, Payload(child), 0);
        if (k == 1) (void)lf::schedule(*pool, t_u64, child, Payload(child), 0);
        if (k == 2) lf::detach(*pool, t_u64, child, Payload(child), 0);
      } catch (lf::schedule_in_worker const &) {
        ++n;
      }
      if (TL[child].started) sim_fail("future", "refused task ran");
    }
    // the worker is unharmed: forking still works
    u64 r = co_await lf::just(sum_tree)(2, 1);
    if (r != sum_model(2, 1)) sim_fail("result", "wrong result after a refused schedule");
    TL[id].finished++;
    co_return n;
  }
};

template <class P>
struct ThrowingScheduler {
  P *pool;
  int fail;  // number of calls that throw
  int calls = 0;
  void schedule(lf::submit_handle h) {
    if (calls++ < fail) {
      if (sim_choose(2)) throw Err(4711);
      throw std::bad_alloc();
    }
    pool->schedule(h);
  }
};

void sc_refuse() {
  reset_log();
  Gates gates;
  with_pool(
      P_ALL,
      [&](auto &pool) {
        using P = std::remove_reference_t<decltype(pool)>;
        bool const nested = sim_choose(2);
        int const fails = static_cast<int>(sim_choose(4));
        sim_describe("nested schedule=%d, scheduler throws %d time(s)", nested, fails);
        if (nested) {
          int id = new_id();
          int n = lf::sync_wait(pool, InWorker<P>{}, &pool, id);
          SIM_CHECK("future", n == 3, "schedule_in_worker thrown by %d of 3 calls in a worker", n);
          sim_cover("schedule_in_worker");
          TL[id + 1] = TL[id + 2] = TL[id + 3] = TaskLog{1, 1, 0}; // refused on purpose
        }
        ThrowingScheduler<P> ts{&pool, fails};
        for (int i = 0; i < fails; ++i) {
          int id = new_id();
          bool threw = false;
          try {
            switch (sim_choose(3)) {
              case 0: (void)lf::sync_wait(ts, t_u64, id, Payload(id), 1); break;
              case 1: (void)lf::schedule(ts, t_str, id, Payload(id)); break;
              default: lf::detach(ts, t_void, id, Payload(id), 0); break;
            }
          } catch (Err const &e) {
            threw = e.origin == 4711;
          } catch (std::bad_alloc const &) {
            threw = true;
          }
          SIM_CHECK("future", threw, "the scheduler's exception did not come through");
          SIM_CHECK("future", TL[id].started == 0, "a task the scheduler refused has run");
          TL[id] = TaskLog{1, 1, 0};
          sim_cover("schedule_threw");
          SIM_CHECK("leak", counted("live_payload") == 0, "arguments of a refused task leaked");
        }
        for (int i = 0; i < 2; ++i) {
          int id = new_id();
          u64 r = lf::sync_wait(ts, t_u64, id, Payload(id), 2);
          SIM_CHECK("future", r == sum_model(2, 1), "wrong value");
        }
        sim_nontrivial();
      },
      3);
  for (int i = 0; i < g_next; ++i) check_ran(i, "in total");
  check_no_user_leak();
}

// ------------------------------------------------------------------------------------------------ C12 / C13 liveness

const char *topologies[] = {"pack:1 core:4 pu:1", "pack:2 core:2 pu:1", "pack:1 core:2 pu:2", "pack:4 core:1 pu:1",
                            "pack:2 numa:2 core:1 pu:1", "pack:1 core:8 pu:1", "pack:3 core:2 pu:1", "numa:2 core:2 pu:1"};

struct CtxList {
  lf::worker_context *p[8];
  std::size_t n;
};
CtxList g_list; // outlives the detached tasks

/// A task that hops between the pool's workers, forking on the way.
struct Hop {
  auto operator()(auto, CtxList const *ctx, int id, int hops, u64 route) const -> lf::task<u64> {
    TL[id].started++;
    u64 acc = 0;
    for (int i = 0; i < hops; ++i) {
      lf::worker_context *dst = ctx->p[(route >> (3 * i)) % ctx->n];
      if ((route >> (40 + i)) & 1) {
        u64 a = 0, b = 0;
        co_await lf::fork(&a, sum_tree)(2, 1);
        co_await lf::resume_on(dst);
        co_await lf::call(&b, sum_tree)(1, 1);
        co_await lf::join;
        acc = mix(acc, mix(a, b));
      } else {
        co_await lf::resume_on(dst);
        acc = mix(acc, 3);
      }
    }
    TL[id].finished++;
    co_return acc;
  }
};
NOSAN u64 hop_model(int hops, u64 route) {
  u64 acc = 0;
  for (int i = 0; i < hops; ++i)
    acc = (route >> (40 + i)) & 1 ? mix(acc, mix(sum_model(2, 1), sum_model(1, 1))) : mix(acc, 3);
  return acc;
}

/// Tasks whose progress depends on each other, pinned to different workers.
inline constexpr auto t_ping = [](auto, int id, std::atomic<int> *mine, std::atomic<int> *other, int rounds) -> lf::task<void> {
  TL[id].started++;
  for (int i = 1; i <= rounds; ++i) {
    mine->store(i, std::memory_order_release);
    while (other->load(std::memory_order_acquire) < i) sim_point();
  }
  TL[id].finished++;
  co_return;
};

/// The forked child spins until its parent's continuation, which only a thief can run, lets it go.
inline constexpr auto spin_child = [](auto, std::atomic<int> *flag) -> lf::task<void> {
  while (!flag->load(std::memory_order_acquire)) sim_point();
  co_return;
};
inline constexpr auto t_needthief = [](auto, int id) -> lf::task<void> {
  TL[id].started++;
  std::atomic<int> flag{0};
  co_await lf::fork(spin_child)(&flag);
  flag.store(1, std::memory_order_release);
  co_await lf::join;
  TL[id].finished++;
};

struct Opts {
  bool sleep;  // lazy pool: check that the workers go to sleep
  bool thief;  // tasks that need a second worker
};

template <class P>
void bursts(P &pool, std::size_t n, Opts o) {
  auto ctx = contexts_of(pool);
  g_list.n = n;
  for (std::size_t i = 0; i < n; ++i) g_list.p[i] = ctx[i];
  int const rounds = 1 + static_cast<int>(sim_choose(3));
  std::mutex serial; // schedule() of a multi-worker pool is not for concurrent use
  int const base_threads = sim_live_threads();
  SIM_CHECK("lifecycle", base_threads == static_cast<int>(n) + 1, "%d threads for %zu workers", base_threads - 1, n);
  for (int r = 0; r < rounds; ++r) {
    int const clients = static_cast<int>(sim_choose(3));
    sim_describe("burst %d: %d extra client thread(s)", r, clients);
    auto one = [&](int what, u64 rnd) {
      int id;
      {
        std::lock_guard l(serial);
        id = new_id();
      }
      auto sched = [&](auto &&f, auto... a) {
        if (rnd & 1) {
          return lf::schedule(*ctx[(rnd >> 1) % ctx.size()], f, a...); // straight to one worker, any number of clients
        }
        std::lock_guard l(serial);
        return lf::schedule(pool, f, a...);
      };
      switch (what) {
        case 0: {
          int hops = 1 + static_cast<int>(rnd >> 8 & 3);
          auto f = sched(Hop{}, &g_list, id, hops, rnd >> 3);
          u64 v = f.get();
          SIM_CHECK("result", v == hop_model(hops, rnd >> 3), "hopping task %d: wrong result", id);
          break;
        }
        case 1: {
          auto f = sched(sum_tree, 3, 1);
          u64 v = f.get();
          SIM_CHECK("result", v == sum_model(3, 1), "wrong result");
          TL[id] = TaskLog{1, 1, 0};
          break;
        }
        default: // detached
          sched(Hop{}, &g_list, id, 1 + static_cast<int>(rnd >> 8 & 1), rnd >> 3).detach();
          break;
      }
    };
    auto client = [&](u64 rnd, int cnt) {
      for (int i = 0; i < cnt; ++i) {
        rnd = mix(rnd, 99);
        one(static_cast<int>(rnd % 3), rnd >> 7);
      }
    };
    std::vector<std::thread> ts;
    for (int c = 0; c < clients; ++c) {
      u64 rnd = sim_choose(1u << 30);
      int cnt = 1 + static_cast<int>(sim_choose(2));
      ts.emplace_back([=, &client] { client(mix(rnd, 5), cnt); });
    }
    client(mix(sim_choose(1u << 30), 6), 1 + static_cast<int>(sim_choose(2)));
    if (n > 1 && sim_choose(2)) {
      // two tasks pinned to different workers that wait for each other
      int a, b;
      {
        std::lock_guard l(serial);
        a = new_id(), b = new_id();
      }
      std::atomic<int> fa{0}, fb{0};
      std::size_t x = sim_choose(static_cast<u32>(n)), y = (x + 1 + sim_choose(static_cast<u32>(n - 1))) % n;
      int k = 1 + static_cast<int>(sim_choose(3));
      auto f1 = lf::schedule(*ctx[x], t_ping, a, &fa, &fb, k);
      auto f2 = lf::schedule(*ctx[y], t_ping, b, &fb, &fa, k);
      f1.get();
      f2.get();
      sim_cover("pinned_pair");
    }
    for (auto &t : ts) t.join();
    await_all_nosan();
    if (o.thief && n > 1) {
      // one worker is busy with a task that waits for its own continuation: somebody else has to steal it
      int k = 1 + static_cast<int>(sim_choose(2));
      for (int i = 0; i < k; ++i) {
        int id = new_id();
        if (sim_choose(2)) lf::sync_wait(pool, t_needthief, id);
        else lf::sync_wait(*ctx[sim_choose(static_cast<u32>(n))], t_needthief, id);
        sim_cover("stolen_from_stalled_worker");
      }
    }
    sim_nontrivial();
    if (o.sleep && sim_choose(2)) {
      // No work left: every worker must end up asleep (a run that never gets there is reported as stuck).
      (void)sim_wait_quiescent(u64{1} << 40);
      SIM_CHECK("sleep", sim_blocked_threads() == static_cast<int>(n), "%d of %zu idle workers asleep", sim_blocked_threads(), n);
      sim_cover("all_asleep");
    }
  }
}

bool g_packages;
/// seq distributes over packages: without any it reports an error.
lf::numa_strategy pick_strategy() { return g_packages && sim_choose(2) ? lf::numa_strategy::seq : lf::numa_strategy::fan; }

template <class F>
void with_topology(F &&f) {
  const char *t = topologies[sim_choose(sizeof topologies / sizeof *topologies)];
  setenv("HWLOC_SYNTHETIC", t, 1);
  g_packages = strstr(t, "pack") != nullptr;
  sim_describe("topology %s", t);
  f();
}

void sc_lazy() {
  reset_log();
  Gates gates;
  with_topology([&] {
    std::size_t n = 1 + sim_choose(5);
    auto st = pick_strategy();
    sim_describe("lazy_pool(%zu, %s)", n, st == lf::numa_strategy::seq ? "seq" : "fan");
    lf::lazy_pool pool(n, st);
    bursts(pool, n, {true, false});
  });
  SIM_CHECK("lifecycle", sim_live_threads() == 1, "threads left");
  for (int i = 0; i < g_next; ++i) check_ran(i, "in total");
}

/// As sc_lazy, with work that needs a thief: an active worker implies an awake thief.
void sc_lazy_thief() {
  reset_log();
  Gates gates;
  with_topology([&] {
    std::size_t n = 2 + sim_choose(3);
    auto st = pick_strategy();
    sim_describe("lazy_pool(%zu, %s)", n, st == lf::numa_strategy::seq ? "seq" : "fan");
    lf::lazy_pool pool(n, st);
    bursts(pool, n, {true, true});
  });
  for (int i = 0; i < g_next; ++i) check_ran(i, "in total");
}

void sc_busy() {
  reset_log();
  Gates gates;
  with_topology([&] {
    std::size_t n = 1 + sim_choose(5);
    auto st = pick_strategy();
    sim_describe("busy_pool(%zu, %s)", n, st == lf::numa_strategy::seq ? "seq" : "fan");
    lf::busy_pool pool(n, st);
    bursts(pool, n, {false, true});
  });
  SIM_CHECK("lifecycle", sim_live_threads() == 1, "threads left");
  for (int i = 0; i < g_next; ++i) check_ran(i, "in total");
}

// ------------------------------------------------------------------------------------------------ C14 unit pool

int g_order[4][64], g_norder[4];
int g_unit_tid;
std::atomic<int> *g_inside;

/// A context switcher that sends the task to the back of the pool's own queue.
struct Requeue {
  lf::unit_pool *pool;
  static bool await_ready() { return false; }
  void await_suspend(lf::submit_handle h) const { pool->schedule(h); }
  static int await_resume() { return 4712; }
};

NOSAN void on_unit_thread(int id) {
  if (g_unit_tid == 0) g_unit_tid = sim_tid();
  if (g_unit_tid != sim_tid()) sim_fail("unit", "task %d runs on thread %d, earlier ones on %d", id, sim_tid(), g_unit_tid);
}

/// sum_tree whose leaves keep going to the back of the queue, leaving continuations and joins behind.
inline constexpr auto yielding_tree = [](auto self, lf::unit_pool *pool, int id, int depth, int n) -> lf::task<u64> {
  if (depth == 0) {
    sim_point();
    if (n % 3 != 1 && co_await Requeue{pool} != 4712) sim_fail("result", "wrong value from the context switch");
    on_unit_thread(id);
    co_return mix(static_cast<u64>(n), 17);
  }
  u64 a, b;
  co_await lf::fork(&a, self)(pool, id, depth - 1, 2 * n);
  on_unit_thread(id);
  co_await lf::call(&b, self)(pool, id, depth - 1, 2 * n + 1);
  co_await lf::join;
  on_unit_thread(id);
  co_return mix(a, b);
};

/// Runs on the unit pool; logs (client, sequence number) and the thread.
inline constexpr auto t_unit = [](auto, lf::unit_pool *pool, int id, int client, int seq, int mode, Payload p) -> lf::task<void> {
  p.check(id, "task");
  on_unit_thread(id);
  g_order[client][g_norder[client]++] = seq; // plain: only one worker
  TL[id].started++;
  if (mode == 1) {
    u64 r = co_await lf::just(sum_tree)(2, 1);
    if (r != sum_model(2, 1)) sim_fail("result", "wrong result");
  } else if (mode == 2) {
    for (int i = 0; i <= id % 3; ++i) {
      if (co_await Requeue{pool} != 4712) sim_fail("result", "wrong value from the context switch");
      on_unit_thread(id);
    }
  } else if (mode == 3) {
    u64 r = co_await lf::just(yielding_tree)(pool, id, 2, 1);
    if (r != sum_model(2, 1)) sim_fail("result", "wrong result");
  }
  on_unit_thread(id);
  p.check(id, "end of task");
  TL[id].finished++;
};

void sc_unit() {
  reset_log();
  memset(g_norder, 0, sizeof g_norder);
  g_unit_tid = 0;
  Gates gates;
  int const clients = 1 + static_cast<int>(sim_choose(3));
  int each[4] = {};
  int total = 0;
  for (int c = 0; c < clients; ++c) each[c] = static_cast<int>(sim_choose(6)), total += each[c];
  u64 how[4];
  for (int c = 0; c < clients; ++c) how[c] = mix(sim_choose(1u << 30), 3);
  sim_describe("unit_pool, %d clients submitting %d %d %d", clients, each[0], each[1], each[2]);
  std::atomic<int> ids{0};
  {
    lf::unit_pool pool;
    auto client = [&](int c) {
      for (int i = 0; i < each[c]; ++i) {
        int id = ids.fetch_add(1);
        u64 h = how[c] >> (4 * i);
        int mode = static_cast<int>(h >> 2 & 3);
        if ((h & 3) == 0) {
          auto f = lf::schedule(pool, t_unit, &pool, id, c, i, mode, Payload(id));
          f.get();
        } else {
          lf::detach(pool, t_unit, &pool, id, c, i, mode, Payload(id)); // may still be pending when the pool dies
        }
      }
    };
    std::vector<std::thread> ts;
    for (int c = 1; c < clients; ++c) ts.emplace_back([&, c] { client(c); });
    client(0);
    for (auto &t : ts) t.join();
    g_next = ids.load();
  }
  SIM_CHECK("lifecycle", sim_live_threads() == 1, "threads left");
  for (int i = 0; i < total; ++i) check_ran(i, "before the pool was gone");
  for (int c = 0; c < clients; ++c) {
    SIM_CHECK("unit", g_norder[c] == each[c], "client %d: %d of %d tasks ran", c, g_norder[c], each[c]);
    for (int i = 0; i < each[c]; ++i) SIM_CHECK("unit", g_order[c][i] == i, "client %d: task %d ran as number %d", c, g_order[c][i], i);
  }
  if (total > 1) sim_nontrivial();
  check_no_user_leak();
}

// ------------------------------------------------------------------------------------------------ C15 life cycle

template <class P>
void use_pool(P &p, std::size_t n, int how) {
  auto ctx = contexts_of(p);
  SIM_CHECK("lifecycle", ctx.size() == n, "contexts() has %zu entries for %zu workers", ctx.size(), n);
  for (std::size_t i = 0; i < n; ++i)
    for (std::size_t j = 0; j < i; ++j) SIM_CHECK("lifecycle", ctx[i] != ctx[j], "duplicate worker context");
  if (how == 0) return;
  int id = new_id();
  g_gate[id].store(0, std::memory_order_relaxed);
  if (how == 1) {
    u64 v = lf::sync_wait(p, t_u64, id, Payload(id), 2);
    SIM_CHECK("result", v == sum_model(2, 1), "wrong result");
  } else {
    // one task on every worker at once: they can only all be running if all workers exist and are distinct threads
    std::atomic<int> here{0};
    auto meet = [](auto, std::atomic<int> *h, int want, int *tid) -> lf::task<void> {
      *tid = sim_tid();
      h->fetch_add(1, std::memory_order_acq_rel);
      while (h->load(std::memory_order_acquire) < want) sim_point();
      co_return;
    };
    std::vector<int> tids(n);
    std::vector<lf::future<void>> fs;
    for (std::size_t i = 0; i < n; ++i) fs.push_back(lf::schedule(*ctx[i], meet, &here, static_cast<int>(n), &tids[i]));
    for (auto &f : fs) f.get();
    for (std::size_t i = 0; i < n; ++i)
      for (std::size_t j = 0; j < i; ++j) SIM_CHECK("lifecycle", tids[i] != tids[j], "two contexts share thread %d", tids[i]);
    TL[id] = TaskLog{1, 1, 0};
    sim_cover("meeting");
  }
}

template <class P>
void lifecycle() {
  struct Slot {
    std::optional<P> p;
    std::size_t n = 0; // 0: moved-from or empty
  };
  Slot s[3];
  auto live = [&] {
    int want = 1;
    for (auto &x : s) want += static_cast<int>(x.n);
    SIM_CHECK("lifecycle", sim_live_threads() == want, "%d threads alive, pools have %d workers", sim_live_threads() - 1, want - 1);
  };
  int steps = 2 + static_cast<int>(sim_choose(6));
  for (int i = 0; i < steps; ++i) {
    static constexpr u32 weight[] = {0, 0, 1, 1, 1, 2, 2, 3, 3, 4, 4, 4, 5};
    u32 what = i == 0 ? 0 : weight[sim_choose(sizeof weight / sizeof *weight)];
    std::size_t a = sim_choose(3), b = sim_choose(3);
    bool const any = what == 0 || (what == 2 && sim_choose(2));
    for (int k = 0; !any && k < 3 && !s[a].n; ++k) a = (a + 1) % 3; // a pool that is alive, if there is one
    if (a == b) b = (b + 1) % 3;
    if (what == 4 && !s[b].p) b = 3 - a - b;
    if (what && what != 2 && !s[a].n) what = 0;
    if (what == 4 && !s[b].p) what = 3;
    switch (what) {
      case 0: { // construct
        std::size_t n = 1 + sim_choose(4);
        bool dflt = sim_choose(3) == 0;
        auto st = pick_strategy();
        s[a].p.reset();
        s[a].n = 0;
        live();
        sim_describe("slot %zu: construct %zu%s", a, n, dflt ? " by default" : "");
        if (dflt) {
          sim_set_hw_threads(static_cast<unsigned>(n));
          s[a].p.emplace();
        } else
          s[a].p.emplace(n, st);
        s[a].n = n;
        break;
      }
      case 1: // use
        if (s[a].n) {
          int how = static_cast<int>(sim_choose(3));
          sim_describe("slot %zu: use %d", a, how);
          use_pool(*s[a].p, s[a].n, how);
          sim_nontrivial();
        }
        break;
      case 2: // destroy
        sim_describe("slot %zu: destroy%s", a, s[a].p && !s[a].n ? " moved-from" : "");
        if (s[a].p && !s[a].n) sim_cover("destroy_moved_from");
        s[a].p.reset();
        s[a].n = 0;
        break;
      case 3: // move construct
        if (a != b && s[a].n) {
          sim_describe("slot %zu: move construct from %zu", b, a);
          s[b].p.reset();
          s[b].p.emplace(std::move(*s[a].p));
          s[b].n = std::exchange(s[a].n, 0);
          sim_cover("move_construct");
        }
        break;
      case 5: { // to itself
        P &self = *s[a].p;
        sim_describe("slot %zu: move assign to itself", a);
        self = std::move(*s[a].p);
        break;
      }
      default: // move assign over whatever is there
        if (a != b && s[a].n && s[b].p) {
          sim_describe("slot %zu: move assign from %zu over %s", b, a, s[b].n ? "a live pool" : "a moved-from pool");
          sim_cover(s[b].n ? "assign_over_live" : "assign_over_moved_from");
          *s[b].p = std::move(*s[a].p);
          s[b].n = std::exchange(s[a].n, 0);
        }
        break;
    }
    live();
  }
  for (auto &x : s) x.p.reset(), x.n = 0;
  live();
}

void sc_life_lazy() {
  reset_log();
  Gates gates;
  with_topology([] { lifecycle<lf::lazy_pool>(); });
  check_no_user_leak();
}
void sc_life_busy() {
  reset_log();
  Gates gates;
  with_topology([] { lifecycle<lf::busy_pool>(); });
  check_no_user_leak();
}

/// Construct and destroy at awkward moments: at once, after detached work reached its end, right after get().
void sc_churn() {
  reset_log();
  Gates gates;
  int n = 1 + static_cast<int>(sim_choose(4));
  for (int i = 0; i < n; ++i) {
    int what = static_cast<int>(sim_choose(4));
    sim_describe("churn %d", what);
    with_pool(
        P_ALL,
        [&](auto &p) {
          int id = 0;
          if (what) id = new_id();
          if (what == 1) (void)lf::sync_wait(p, t_u64, id, Payload(id), static_cast<int>(sim_choose(3)));
          if (what == 2) {
            lf::detach(p, t_void, id, Payload(id), 0);
            await_task(id);
          }
          if (what == 3) {
            auto f = lf::schedule(p, t_throw, id, Payload(id), 1);
            f.wait();
          }
        },
        4);
    SIM_CHECK("lifecycle", sim_live_threads() == 1, "threads left");
  }
  sim_nontrivial();
  for (int i = 0; i < g_next; ++i) check_ran(i, "in total");
  check_no_user_leak();
}

// ------------------------------------------------------------------------------------------------ C06 setting up a pool

/// A pool that cannot be set up is an exception: nothing leaks, no thread stays, and a later attempt succeeds. (Once the
/// creation of threads has begun it either succeeds or the program ends, as documented, so no faults there.)
template <class P, class... Args>
void setup(std::size_t n, Args... args) {
  sim_alloc_faults_after_spawns(0, 0);
  std::uint64_t a0 = sim_alloc_count();
  { P clean(args...); }
  std::int64_t const before = static_cast<std::int64_t>(sim_alloc_count_at_spawn() - a0) - 3; // the thread's own, and room for it
  SIM_CHECK("lifecycle", sim_live_threads() == 1, "%d threads are left of a pool", sim_live_threads() - 1);
  int const rounds = 1 + static_cast<int>(sim_choose(4));
  for (int i = 0; i < rounds; ++i) {
    bool done = false, unit = std::is_same_v<P, lf::unit_pool>;
    std::int64_t const f0 = sim_alloc_failures();
    try {
      switch (sim_choose(2)) {
        case 0:
          if (before <= 0) break;
          sim_alloc_fail_nth(sim_choose(static_cast<u32>(before)), 0);
          sim_describe("allocation fails before the workers are started");
          {
            P pool(args...);
            sim_alloc_fail_nth(-1, 0);
            done = true;
            int id = new_id();
            if (lf::sync_wait(pool, t_u64, id, Payload(id), 1) != sum_model(1, 1)) sim_fail("result", "wrong value");
          }
          break;
        default:
          if (unit) { // the thread itself
            sim_describe("the thread cannot be created");
            sim_spawn_faults(1);
          } else {
            sim_describe("allocation fails after the workers are started");
            sim_alloc_faults_after_spawns(n, 1 + sim_choose(3));
          }
          {
            P pool(args...);
            sim_alloc_faults(0, 0);
            done = true;
            int id = new_id();
            if (lf::sync_wait(pool, t_u64, id, Payload(id), 1) != sum_model(1, 1)) sim_fail("result", "wrong value");
          }
          break;
      }
    } catch (std::bad_alloc const &) {
      if (sim_alloc_failures() == f0) sim_fail("alloc", "bad_alloc although nothing failed");
    } catch (std::system_error const &) {
      if (!unit) sim_fail("alloc", "system_error although a thread was created each time");
    }
    sim_alloc_faults(0, 0);
    sim_alloc_fail_nth(-1, 0);
    sim_spawn_faults(0);
    sim_cover(done ? "pool_ok_under_faults" : "pool_failed");
    if (!done) sim_nontrivial();
    SIM_CHECK("lifecycle", sim_live_threads() == 1, "%d threads are left of a pool", sim_live_threads() - 1);
  }
  P pool(args...);
  int id = new_id();
  if (lf::sync_wait(pool, t_u64, id, Payload(id), 2) != sum_model(2, 1)) sim_fail("result", "wrong value");
}
void sc_setup() {
  reset_log();
  Gates gates;
  with_topology([] {
    std::size_t n = 1 + sim_choose(4);
    auto st = pick_strategy();
    switch (sim_choose(5)) {
      case 0: sim_describe("unit_pool"); return setup<lf::unit_pool>(1);
      case 1:
      case 2: sim_describe("lazy_pool(%zu)", n); return setup<lf::lazy_pool>(n, n, st);
      default: sim_describe("busy_pool(%zu)", n); return setup<lf::busy_pool>(n, n, st);
    }
  });
  for (int i = 0; i < g_next; ++i) check_ran(i, "in total");
  check_no_user_leak();
}

} // namespace

SimScenario sim_scenarios[] = {{"future", sc_future}, {"refuse", sc_refuse},       {"lazy", sc_lazy},
                               {"busy", sc_busy},     {"unit", sc_unit},           {"life_lazy", sc_life_lazy},
                               {"life_busy", sc_life_busy}, {"churn", sc_churn},   {"lazy_thief", sc_lazy_thief}, {"setup", sc_setup},
                               {nullptr, nullptr}};
