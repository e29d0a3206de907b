// Memory stays in proportion to workers times depth, whatever the schedule and however long the program runs (C25).
#include "common.hpp"

#include <algorithm>

namespace {

constexpr i64 PAGE = 4096;
constexpr i64 OVERHEAD = 768; // a frame beyond its explicit local: promise, arguments, temporaries

struct Cfg {
  int workers;
  int roots;
  int reps;   // iterations of a loop body
  int depth;  // of a chain, of a tree
  int fan;
  int big;    // bytes of one large allocation
  int shape;  // what the root does
  int frames; // which frame sizes take part
  int naps;
  bool exc;
};
Cfg M;

struct Track {
  i64 live, live_bytes;       // tasks dispatched and not finished, their frames
  i64 started;                // tasks that have begun and not finished
  i64 max_path, max_frame;    // largest sum of frames on a path, largest frame or allocation
  i64 base;                   // bytes held by the idle pool
  i64 peak_started, peak_held;
  i64 done;
};
Track T;

constexpr int sizes[] = {0, 150, 1500, 6000, 40000};

NOSAN i64 stacks_slack(i64 nlive) {
  // A stacklet that is not empty was at most eight (cached) times as large as what the ones around it hold; the empty one that is
  // kept above it was once filled by a path.
  i64 cached = 2 * T.max_path + 2 * PAGE;
  if (M.shape == 2) cached = std::min<i64>(8 * cached + PAGE, 2 * (T.max_path + M.big) + 2 * PAGE);
  // Without thieves only roots leave a stack behind, with them every live task may.
  return (M.workers == 1 ? M.roots + 2 : nlive + 2 * M.workers + M.roots + 1) * (2 * PAGE + cached);
}

NOSAN void check_bound(const char *where) {
  i64 held = static_cast<i64>(sim_live_bytes()) - T.base;
  T.peak_held = std::max(T.peak_held, held);
  i64 bound = M.workers * (40 << 10) + stacks_slack(T.live) + 16 * (T.live_bytes + 2 * M.workers * T.max_frame);
  if (held > bound)
    sim_fail("memory-bound", "%s: %lld bytes held for %lld live tasks of %lld bytes on %d workers (bound %lld)", where,
             (long long)held, (long long)T.live, (long long)T.live_bytes, M.workers, (long long)bound);
}

/// Called by the parent right before it creates the task.
NOSAN i64 dispatching(i64 path, int n) {
  i64 f = n + OVERHEAD;
  T.live++, T.live_bytes += f;
  T.max_frame = std::max(T.max_frame, f);
  T.max_path = std::max(T.max_path, path + f);
  return path + f;
}

NOSAN void begin(int maxdepth) {
  T.started++;
  T.peak_started = std::max(T.peak_started, T.started);
  // Busy leaves: every task that has begun is on the path to one that a worker is executing, or about to return from.
  if (T.started > static_cast<i64>(M.workers) * (maxdepth + 1))
    sim_fail("busy-leaves", "%lld tasks begun and not finished on %d workers, no path is longer than %d", (long long)T.started,
             M.workers, maxdepth);
  check_bound("a task began");
}
NOSAN void end(int n) {
  T.started--, T.live--, T.live_bytes -= n + OVERHEAD;
  T.done++;
}

int g_maxdepth;

struct Life {
  int n;
  explicit Life(int m) : n(m) { begin(g_maxdepth); }
  ~Life() { end(n); }
  Life(Life const &) = delete;
};

struct Held { // a co_new block
  i64 n;
  NOSAN explicit Held(i64 b) : n(b) { T.live_bytes += b; }
  NOSAN ~Held() { T.live_bytes -= n; }
};

NOSAN u32 rnd(u64 &s, u32 n) {
  s = mix(s, n);
  return static_cast<u32>((s >> 20) % n);
}

NOSAN int pick_frame(u64 &s) {
  int k = static_cast<int>(rnd(s, 5));
  while (!(M.frames >> k & 1)) k = k ? k - 1 : 4;
  return k;
}

template <int N>
struct leaf_t {
  auto operator()(auto, i64, u64 id) const -> lf::task<u64> {
    Life l(N);
    Canary<N> c;
    c.arm(static_cast<int>(id % 1000));
    if (M.naps && id % 3 == 0) sim_point();
    c.check(static_cast<int>(id % 1000), "leaf");
    if (M.exc && id % 5 == 0) throw Err(7);
    co_return mix(id, 3);
  }
};
template <int N>
inline constexpr leaf_t<N> leaf = {};

struct node_t;

#define SIZED(go, F, path, ...)                                                                                        \
  switch (pick_frame(s)) {                                                                                             \
    case 0: co_await go(F<sizes[0]>)(dispatching(path, sizes[0]), __VA_ARGS__); break;                                 \
    case 1: co_await go(F<sizes[1]>)(dispatching(path, sizes[1]), __VA_ARGS__); break;                                 \
    case 2: co_await go(F<sizes[2]>)(dispatching(path, sizes[2]), __VA_ARGS__); break;                                 \
    case 3: co_await go(F<sizes[3]>)(dispatching(path, sizes[3]), __VA_ARGS__); break;                                 \
    default: co_await go(F<sizes[4]>)(dispatching(path, sizes[4]), __VA_ARGS__); break;                                \
  }
#define FORK(F, path, ret, ...)                                                                                        \
  {                                                                                                                    \
    auto go = [ret_ = ret](auto f) { return lf::fork(ret_, f); };                                                      \
    SIZED(go, F, path, __VA_ARGS__)                                                                                    \
  }
#define CALL(F, path, ret, ...)                                                                                        \
  {                                                                                                                    \
    auto go = [ret_ = ret](auto f) { return lf::call(ret_, f); };                                                      \
    SIZED(go, F, path, __VA_ARGS__)                                                                                    \
  }
#define DROP(F, path, ...) SIZED(lf::fork, F, path, __VA_ARGS__)

/// A tree with frames of many sizes; the sum over the tree is its value.
template <int N>
struct tree_t {
  auto operator()(auto, i64 path, int d, u64 id) const -> lf::task<u64>;
};
template <int N>
inline constexpr tree_t<N> tree = {};

template <int N>
auto tree_t<N>::operator()(auto, i64 path, int d, u64 id) const -> lf::task<u64> {
  Life l(N);
  Canary<N> c;
  c.arm(d);
  u64 s = id, sum = 1;
  if (d > 0) {
    u64 r[3] = {};
    int n = 1 + static_cast<int>(rnd(s, static_cast<u32>(M.fan)));
    if (rnd(s, 4) == 0) {
      CALL(tree, path, &sum, d - 1, mix(id, 77));
      sum++;
    }
    for (int i = 0; i < n; ++i) {
      FORK(tree, path, &r[i], d - 1, mix(id, static_cast<u64>(i)));
    }
    co_await lf::join;
    for (u64 x : r) sum += x;
  }
  c.check(d, "tree");
  co_return sum;
}

template <int N>
struct chain_t {
  auto operator()(auto, i64 path, int d, u64 id) const -> lf::task<u64>;
};
template <int N>
inline constexpr chain_t<N> chain = {};

template <int N>
auto chain_t<N>::operator()(auto, i64 path, int d, u64 id) const -> lf::task<u64> {
  Life l(N);
  Canary<N> c;
  c.arm(d);
  u64 s = id, r = 0;
  if (d > 0) {
    if (rnd(s, 2)) {
      FORK(chain, path, &r, d - 1, mix(id, 5));
      co_await lf::join;
    } else {
      CALL(chain, path, &r, d - 1, mix(id, 5));
    }
  }
  c.check(d, "chain");
  co_return r + 1;
}

/// Does the work of one root.
inline constexpr auto work = [](auto, u64 id) -> lf::task<u64> {
  Life l(0);
  u64 s = id, sum = 0;
  i64 const path = OVERHEAD;
  u64 r = 0;
  switch (M.shape) {
    case 0: // one scope, many children
      for (int i = 0; i < M.reps; ++i) {
        DROP(leaf, path, static_cast<u64>(i));
        check_bound("between two forks");
      }
      try {
        co_await lf::join;
      } catch (Err const &) {
      }
      break;
    case 1: // many scopes
      for (int i = 0; i < M.reps / 3 + 1; ++i) {
        try {
          for (int k = 0; k < 3; ++k) {
            DROP(leaf, path, static_cast<u64>(i + k));
          }
          co_await lf::join;
        } catch (Err const &) {
          sim_cover("caught");
        }
        check_bound("between two scopes");
      }
      break;
    case 2: // one large allocation, then small ones
      for (int i = 0; i < 2; ++i) {
        {
          Held h(M.big);
          auto [b] = co_await lf::co_new<unsigned char>(static_cast<std::size_t>(M.big));
          b.front() = 1, b.back() = 2;
          for (int k = 0; k < 3; ++k) {
            FORK(chain, path, &r, M.depth % 4, static_cast<u64>(k));
            co_await lf::join;
          }
          if (b.front() != 1 || b.back() != 2) sim_fail("corruption", "co_new block damaged");
        }
        for (int k = 0; k < 4; ++k) {
          DROP(leaf, path, static_cast<u64>(5 * k + 1));
          co_await lf::join;
        }
      }
      break;
    case 3: // a tree, repeatedly
      for (int i = 0; i < 2; ++i) {
        CALL(tree, path, &r, M.depth, mix(id, static_cast<u64>(i)));
        sum += r;
      }
      break;
    case 4: // a chain, repeatedly
      for (int i = 0; i < 2; ++i) {
        FORK(chain, path, &r, M.depth, mix(id, static_cast<u64>(i)));
        co_await lf::join;
        if (r != static_cast<u64>(M.depth) + 1) sim_fail("result", "chain of %d returned %llu", M.depth, (unsigned long long)r);
      }
      break;
    default: // calls in a loop
      for (int i = 0; i < M.reps; ++i) {
        CALL(leaf, path, &r, static_cast<u64>(5 * i + 1));
        check_bound("between two calls");
      }
  }
  co_return sum;
};

NOSAN void quiet(const char *where, i64 max_path) {
  // No task is live.  Every worker and this thread hold one stack whose only (first) block is a page, and perhaps one empty block
  // above it that is at most eight times as large.
  i64 cached = std::min<i64>(8 * PAGE + PAGE, 2 * max_path + 2 * PAGE);
  i64 bound = (M.workers + 1) * (PAGE + cached) + M.workers * (24 << 10);
  i64 held = static_cast<i64>(sim_live_bytes()) - T.base;
  if (held > bound)
    sim_fail("memory-kept", "%s: the idle pool of %d workers keeps %lld bytes (bound %lld)", where, M.workers, (long long)held,
             (long long)bound);
}

void sc_memory() {
  M = {};
  T = {};
  M.shape = static_cast<int>(sim_choose(6));
  M.frames = 1 + static_cast<int>(sim_choose(31));
  M.naps = static_cast<int>(sim_choose(2));
  M.roots = 1 + static_cast<int>(sim_choose(3));
  M.reps = 1 + static_cast<int>(sim_choose(sim_choose(3) ? 40 : 250));
  M.fan = 1 + static_cast<int>(sim_choose(3));
  M.exc = M.shape <= 1 && sim_choose(3) == 0;
  M.depth = M.shape == 3 ? 1 + static_cast<int>(sim_choose(M.fan == 1 ? 12 : M.fan == 2 ? 6 : 4)) : static_cast<int>(sim_choose(90));
  M.big = (64 << 10) << sim_choose(7);
  int rounds = 1 + static_cast<int>(sim_choose(3));
  if (sim_choose(4) == 0) { // many short rounds
    rounds = 20 + static_cast<int>(sim_choose(30));
    M.reps = 1 + M.reps % 4, M.depth %= 6;
    if (M.shape == 3) M.depth = 1 + M.depth % 2;
    sim_cover("many_rounds");
  }
  sim_describe("shape=%d frames=%d roots=%d reps=%d depth=%d fan=%d big=%d rounds=%d ", M.shape, M.frames, M.roots, M.reps, M.depth,
               M.fan, M.big, rounds);
  g_maxdepth = M.shape <= 1 || M.shape == 5 ? 2 : M.depth + 2;
  with_pool(P_ALL, [&](auto &pool) {
    M.workers = static_cast<int>(contexts_of(pool).size());
    if (M.workers == 0) M.workers = 1;
    T.base = static_cast<i64>(sim_live_bytes());
    for (int k = 0; k < rounds; ++k) {
      {
        std::vector<lf::future<u64>> fs;
        for (int i = 0; i < M.roots; ++i) {
          dispatching(0, 0);
          T.live_bytes += 512; // shared state
          fs.push_back(lf::schedule(pool, work, mix(static_cast<u64>(i), static_cast<u64>(k))));
        }
        for (auto &f : fs) (void)f.get();
      }
      T.live_bytes -= 512 * M.roots;
      SIM_CHECK("exactly-once", T.live == 0 && T.started == 0 && T.live_bytes == 0, "%lld tasks (%lld bytes) left", (long long)T.live,
                (long long)T.live_bytes);
      sim_wait_quiescent(rounds > 3 ? 200 : 2000);
      quiet("all tasks have finished", T.max_path + (M.shape == 2 ? M.big : 0));
    }
    if (T.peak_started > g_maxdepth) sim_nontrivial();
    if (T.done > 300) sim_cover("many_tasks");
    if (M.shape == 2) sim_cover("big_block");
  });
  check_no_user_leak();
}

} // namespace

SimScenario sim_scenarios[] = {{"memory", sc_memory}, {nullptr, nullptr}};
