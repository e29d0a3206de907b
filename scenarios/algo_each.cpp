// C16 for_each and C17 map.
#include "algo_common.hpp"

namespace {

int *g_hits; // instrumented: written by the user function, read after the algorithm
int const *g_base;

// -- user functions.  Elements are ints holding their own index.

struct Elem {
  int idx;
  Elem const *self; // detects copies where a reference to the element is expected
};

inline void hit(int i, int n) {
  if (i < 0 || i >= n) sim_fail("algorithm", "the function was invoked for an element outside the range (%d of %d)", i, n);
  ++g_hits[i];
}

struct FSync : Stateful, Pad {
  void operator()(int const &i) const {
    Active a;
    use();
    hit(i, A.n);
    user_step(S_FUN, i);
  }
};
struct FElem : Stateful { // must receive the element itself
  int operator()(Elem &e) const {
    Active a;
    use();
    if (e.self != &e) sim_fail("algorithm", "for_each passed a copy of element %d", e.idx);
    hit(e.idx, A.n);
    user_step(S_FUN, e.idx);
    return e.idx;
  }
};
struct FAsync : Stateful {
  auto operator()(auto self, int i) const -> lf::task<> {
    Active a;
    use_own(self);
    hit(i, A.n);
    ASYNC_PAUSE(i);
    use_own(self);
    user_step(S_FUN, i);
  }
};
struct FAsyncRef : Stateful { // refers to its argument after suspending
  auto operator()(auto self, int const &i) const -> lf::task<> {
    Active a;
    use_own(self);
    hit(i, A.n);
    int was = i;
    ASYNC_PAUSE(i);
    use_own(self);
    if (was != i) sim_fail("corruption", "argument of the async function changed from %d to %d", was, i);
    user_step(S_FUN, i);
  }
};
struct PSync : Stateful {
  int operator()(int i) const {
    Active a;
    use();
    user_step(S_PROJ, i);
    return i;
  }
};
struct PElem { // projects to a reference
  int const &operator()(Elem const &e) const {
    if (e.self != &e) sim_fail("algorithm", "the projection was given a copy of element %d", e.idx);
    return e.idx;
  }
};
struct PAsync : Stateful {
  auto operator()(auto self, int i) const -> lf::task<int> {
    Active a;
    use_own(self);
    ASYNC_PAUSE(i + 1);
    use_own(self);
    user_step(S_PROJ, i);
    co_return i;
  }
};

void check_hits(int n, bool ok) {
  for (int i = 0; i < n; ++i)
    if (g_hits[i] > 1 || (ok && g_hits[i] != 1))
      sim_fail("algorithm", "the function was invoked %d times for element %d of %d", g_hits[i], i, n);
}

template <class I, class S, class Fun, class Proj>
void each_iter(AnySched &s, int mode, I b, S e, Fun f, Proj p) {
  bool ok = run_algo("for_each", [&] {
    if (mode & 2)
      launch(s, mode, lf::for_each, b, e, f, p);
    else
      launch(s, mode, lf::for_each, b, e, static_cast<std::iter_difference_t<I>>(A.grain), f, p);
  });
  check_hits(A.n, ok);
}
template <class R, class Fun, class Proj>
void each_range(AnySched &s, int mode, R r, Fun f, Proj p) {
  bool ok = run_algo("for_each", [&] {
    if (mode & 2)
      launch(s, mode, lf::for_each, r, f, p);
    else
      launch(s, mode, lf::for_each, r, static_cast<std::ranges::range_difference_t<R>>(A.grain), f, p);
  });
  check_hits(A.n, ok);
}

void sc_for_each() {
  int kind = static_cast<int>(sim_choose(10));
  int mode = static_cast<int>(sim_choose(4));
  sim_describe("for_each kind=%d mode=%d ", kind, mode);
  gen_state(40, true, kind >= 3 && kind != 6 && kind != 9, false);
  u64 calls = 0;
  {
    std::vector<int> hits(static_cast<size_t>(A.n), 0);
    g_hits = hits.data();
    std::vector<int> v;
    std::vector<Elem> el(static_cast<size_t>(A.n));
    for (int i = 0; i < A.n; ++i) v.push_back(i), el[static_cast<size_t>(i)] = {i, &el[static_cast<size_t>(i)]};
    std::deque<int> dq(v.begin(), v.end());
    ALGO_RUN({
      switch (kind) {
        case 0: each_iter(sched, mode, v.begin(), v.end(), FSync{}, std::identity{}); break;
        case 1: each_iter(sched, mode, v.data(), v.data() + A.n, FAsync{}, std::identity{}); break;
        case 2: each_range(sched, mode, std::span<Elem>(el), FElem{}, std::identity{}); break;
        case 3: each_iter(sched, mode, dq.begin(), dq.end(), FAsyncRef{}, PSync{}); break;
        case 4: each_range(sched, mode, std::views::iota(0, A.n), FSync{}, PAsync{}); break;
        case 5: each_iter(sched, mode, std::counted_iterator(v.cbegin(), A.n), std::default_sentinel, FAsync{}, PSync{}); break;
        case 6: each_range(sched, mode, std::span<Elem const>(el), FAsyncRef{}, PElem{}); break;
        case 7: each_range(sched, mode, std::ranges::subrange(v.rbegin(), v.rend()), FAsync{}, PAsync{}); break;
        case 8: each_iter(sched, mode, first_of(v.data(), A.n), last_of(v.data(), A.n), FAsyncRef{}, PAsync{}); break;
        case 9: each_range(sched, mode, std::ranges::subrange(first_of(v.data(), A.n), last_of(v.data(), A.n)), FAsync{}, std::identity{}); break;
      }
      calls = A.calls;
      if (A.n > A.grain) sim_nontrivial();
    });
    check_late(calls);
  }
  check_algo_leaks();
}

// ------------------------------------------------------------------------------------------------ map

/// Output cell counting its assignments.
struct Cell {
  int value = -1, writes = 0;
  std::unique_ptr<int> own;
  Cell() = default;
  Cell(Cell &&) = default;
  Cell(Cell const &) = delete;
  Cell &operator=(Cell &&) = delete;
  Cell &operator=(Seg s) {
    value = s.lo;
    ++writes;
    own = std::move(s.own);
    return *this;
  }
};

struct Nothing {};
template <bool Ref>
struct MSync : Stateful, std::conditional_t<Ref, Pad, Nothing> {
  Seg operator()(int i) const {
    Active a;
    use();
    hit(i, A.n);
    user_step(S_FUN, i);
    return Seg(i, i + 1);
  }
};
struct MAsync : Stateful {
  auto operator()(auto self, int i) const -> lf::task<Seg> {
    Active a;
    use_own(self);
    hit(i, A.n);
    ASYNC_PAUSE(i);
    use_own(self);
    user_step(S_FUN, i);
    co_return Seg(i, i + 1);
  }
};
// in place on ints: x -> 1000+x
struct InPlace {
  int operator()(int i) const {
    Active a;
    if (i >= 1000) sim_fail("algorithm", "map applied the function to its own output");
    hit(i, A.n);
    user_step(S_FUN, i);
    return 1000 + i;
  }
};
struct InPlaceAsync : Stateful {
  auto operator()(auto self, int const &i) const -> lf::task<int> {
    Active a;
    use_own(self);
    if (i >= 1000) sim_fail("algorithm", "map applied the function to its own output");
    hit(i, A.n);
    ASYNC_PAUSE(i);
    use_own(self);
    user_step(S_FUN, i);
    co_return 1000 + i;
  }
};

template <class I, class S, class O, class Fun, class Proj>
bool map_iter(AnySched &s, int mode, I b, S e, O o, Fun f, Proj p) {
  return run_algo("map", [&] {
    if (mode & 2)
      launch(s, mode, lf::map, b, e, o, f, p);
    else
      launch(s, mode, lf::map, b, e, o, static_cast<std::iter_difference_t<I>>(A.grain), f, p);
  });
}
template <class R, class O, class Fun, class Proj>
bool map_range(AnySched &s, int mode, R r, O o, Fun f, Proj p) {
  return run_algo("map", [&] {
    if (mode & 2)
      launch(s, mode, lf::map, r, o, f, p);
    else
      launch(s, mode, lf::map, r, o, static_cast<std::ranges::range_difference_t<R>>(A.grain), f, p);
  });
}

void sc_map() {
  int kind = static_cast<int>(sim_choose(9));
  int mode = static_cast<int>(sim_choose(4));
  sim_describe("map kind=%d mode=%d ", kind, mode);
  gen_state(40, true, (kind >= 2 && kind <= 4) || kind == 7, false);
  u64 calls = 0;
  {
    std::vector<int> hits(static_cast<size_t>(A.n), 0);
    g_hits = hits.data();
    std::vector<int> v;
    for (int i = 0; i < A.n; ++i) v.push_back(i);
    constexpr int G = 3; // guard cells on both sides
    std::vector<Cell> out(static_cast<size_t>(A.n + 2 * G));
    std::deque<int> dq(v.begin(), v.end());
    bool ok = false, inplace = false;
    ALGO_RUN({
      auto o = out.begin() + G;
      switch (kind) {
        case 0: ok = map_iter(sched, mode, v.begin(), v.end(), o, MSync<true>{}, std::identity{}); break;
        case 1: ok = map_iter(sched, mode, v.cbegin(), v.cend(), out.data() + G, MAsync{}, std::identity{}); break;
        case 2: ok = map_range(sched, mode, std::span<int>(v), o, MAsync{}, PSync{}); break;
        case 3: ok = map_range(sched, mode, std::views::iota(0, A.n), o, MSync<false>{}, PAsync{}); break;
        case 4: ok = map_iter(sched, mode, std::counted_iterator(dq.begin(), A.n), std::default_sentinel, o, MAsync{}, PAsync{}); break;
        case 5: inplace = true, ok = map_iter(sched, mode, v.begin(), v.end(), v.begin(), InPlace{}, std::identity{}); break;
        case 6: inplace = true, ok = map_range(sched, mode, std::span<int>(v), v.data(), InPlaceAsync{}, std::identity{}); break;
        case 7:
          ok = map_iter(sched, mode, first_of(v.data(), A.n), last_of(v.data(), A.n), first_of(out.data() + G, A.n), MAsync{}, PAsync{});
          break;
        case 8: ok = map_range(sched, mode, std::span<int const>(v), first_of(out.data() + G, A.n), MSync<false>{}, std::identity{}); break;
      }
      calls = A.calls;
      if (A.n > A.grain) sim_nontrivial();
    });
    check_late(calls);
    check_hits(A.n, ok);
    for (int i = 0; i < A.n; ++i) {
      if (inplace) {
        int x = v[static_cast<size_t>(i)];
        if (x != 1000 + i && (ok || x != i)) sim_fail("algorithm", "in place map: element %d of %d is %d", i, A.n, x);
      } else {
        Cell &c = out[static_cast<size_t>(i + G)];
        if (c.writes > 1 || (ok && c.writes != 1)) sim_fail("algorithm", "map wrote output %d of %d %d times", i, A.n, c.writes);
        if (c.writes && c.value != i) sim_fail("algorithm", "map wrote f(x_%d) to output %d", c.value, i);
      }
    }
    for (int i = 0; i < G; ++i)
      if (out[static_cast<size_t>(i)].writes || out[static_cast<size_t>(G + A.n + i)].writes) sim_fail("algorithm", "map wrote outside the output range");
  }
  check_algo_leaks();
}

} // namespace

SimScenario sim_scenarios[] = {{"for_each", sc_for_each}, {"map", sc_map}, {nullptr, nullptr}};
