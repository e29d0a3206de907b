// Shared pieces of the algorithm scenarios (C16-C19).
#pragma once
#include "common.hpp"

#include <algorithm>
#include <deque>
#include <iterator>
#include <ranges>
#include <span>

namespace {

// ------------------------------------------------------------------------------------------------ run state (NOSAN)

enum Site { S_FUN, S_PROJ, S_OP, S_SITES };
struct AState {
  int n;
  i64 grain;
  u64 thr[S_SITES];    // which elements / boundaries throw
  u64 thrown[S_SITES]; // which did
  int active;          // user functions currently executing
  u64 calls;           // user functions started
  int alloc;      // one in this many large allocations fails while the algorithm runs (0: none)
  int filler;     // bytes taken from the stack below the algorithm
  i64 failed0;    // allocation failures before it started
  int style; // how much the user functions wander between scheduling points
};
AState A;

NOSAN int origin_of(Site s, int i) { return static_cast<int>(s) * 1000 + i; }
NOSAN bool should_throw(Site s, int i) {
  if (i < 0 || i >= 64) return false;
  if (!(A.thr[s] >> i & 1)) return false;
  A.thrown[s] |= 1ull << i;
  return true;
}
NOSAN bool any_throws() { return A.thr[S_FUN] | A.thr[S_PROJ] | A.thr[S_OP]; }
NOSAN bool any_thrown() { return A.thrown[S_FUN] | A.thrown[S_PROJ] | A.thrown[S_OP]; }
NOSAN bool was_thrown(int origin) {
  int s = origin / 1000, i = origin % 1000;
  return s >= 0 && s < S_SITES && i < 64 && (A.thrown[s] >> i & 1);
}

/// A user function is executing.
struct Active {
  NOSAN Active() { A.active++, A.calls++; }
  NOSAN ~Active() { A.active--; }
  Active(Active const &) = delete;
};

inline void user_step(Site s, int i) {
  if (A.style & 1) sim_point();
  if (should_throw(s, i)) throw Err(origin_of(s, i));
  if (A.style & 2) sim_point();
}

inline constexpr auto nap = [](auto, int) -> lf::task<> {
  Active a;
  sim_point();
  co_return;
};

#define ASYNC_PAUSE(i)                                                                                                 \
  do {                                                                                                                 \
    if (((i) + A.style) % 3 == 0) {                                                                                    \
      co_await lf::fork(nap)(1);                                                                                       \
      bool oom = false; /* a call may fail to allocate: the join comes first */                                        \
      try {                                                                                                            \
        co_await lf::call(nap)(2);                                                                                     \
      } catch (std::bad_alloc const &) {                                                                               \
        oom = true;                                                                                                    \
      }                                                                                                                \
      co_await lf::join;                                                                                               \
      if (oom) throw std::bad_alloc();                                                                                 \
    }                                                                                                                  \
  } while (0)

/// Makes every frame the functor travels through larger than a worker's first stack block, so stacks grow all the time.
struct Pad {
  char bytes[4300];
  Pad() {}
  Pad(Pad const &) {}
  Pad &operator=(Pad const &) { return *this; }
};

// ------------------------------------------------------------------------------------------------ values

/// The interval [lo,hi) of input elements a value stands for; combining is only defined for neighbours, so any
/// reordering, duplication or omission is caught where it happens.  Associative, not commutative.
struct Seg {
  int lo, hi;
  bool raw; // input that has not been projected yet
  std::unique_ptr<int> own;
  Seg(int l, int h, bool r = false) : lo(l), hi(h), raw(r), own(new int(l * 1000 + h)) { count("live_seg"); }
  Seg(Seg const &o) : lo(o.lo), hi(o.hi), raw(o.raw), own(o.own ? new int(*o.own) : nullptr) { count("live_seg"); }
  Seg(Seg &&o) noexcept : lo(o.lo), hi(o.hi), raw(o.raw), own(std::move(o.own)) { count("live_seg"); }
  Seg &operator=(Seg const &o) {
    if (this != &o) {
      lo = o.lo, hi = o.hi, raw = o.raw;
      own.reset(o.own ? new int(*o.own) : nullptr);
    }
    return *this;
  }
  Seg &operator=(Seg &&o) noexcept {
    lo = o.lo, hi = o.hi, raw = o.raw, own = std::move(o.own);
    return *this;
  }
  ~Seg() { count("live_seg", -1); }
  bool ok() const { return own && *own == lo * 1000 + hi; }
};

inline void check_operands(Seg const &a, Seg const &b) {
  if (!a.ok() || !b.ok()) sim_fail("algorithm", "the operation was given a moved-from or missing operand [%d,%d) [%d,%d)", a.lo, a.hi, b.lo, b.hi);
  if (a.raw || b.raw) sim_fail("algorithm", "the operation was given an element that was not projected");
  if (a.hi != b.lo) sim_fail("algorithm", "the operation was given [%d,%d) and [%d,%d): not neighbours in order", a.lo, a.hi, b.lo, b.hi);
}

/// x -> a*x+b (mod 2^32): total, associative, not commutative, trivially copyable.
struct Aff {
  u32 a, b;
  bool operator==(Aff const &) const = default;
};
inline Aff compose(Aff f, Aff g) { return {f.a * g.a, f.b * g.a + g.b}; }
NOSAN inline Aff aff_of(int i) { return {static_cast<u32>(mix(static_cast<u64>(i), 3)) | 1, static_cast<u32>(mix(static_cast<u64>(i), 5))}; }

/// An iterator that owns something and knows its range: using one that was moved from or destroyed, stepping outside the
/// range or reading its end (undefined for a real random access iterator) is caught.
template <class T>
struct CheckIt {
  using value_type = std::remove_const_t<T>;
  using difference_type = std::ptrdiff_t;
  using reference = T &;
  using pointer = T *;
  using iterator_category = std::random_access_iterator_tag;
  T *b = nullptr, *e = nullptr, *p = nullptr;
  std::unique_ptr<int> tag;
  CheckIt() { count("live_iter"); }
  CheckIt(T *begin, T *end, T *at) : b(begin), e(end), p(at), tag(new int(88)) { count("live_iter"); }
  CheckIt(CheckIt const &o) : b(o.b), e(o.e), p(o.p), tag(o.tag ? new int(*o.tag) : nullptr) { count("live_iter"); }
  CheckIt(CheckIt &&o) noexcept : b(o.b), e(o.e), p(o.p), tag(std::move(o.tag)) { count("live_iter"); }
  CheckIt &operator=(CheckIt const &o) {
    if (this != &o) {
      b = o.b, e = o.e, p = o.p;
      if (!o.tag)
        tag.reset();
      else if (!tag)
        tag.reset(new int(*o.tag));
    }
    return *this;
  }
  CheckIt &operator=(CheckIt &&o) noexcept {
    b = o.b, e = o.e, p = o.p, tag = std::move(o.tag);
    return *this;
  }
  ~CheckIt() {
    if (tag && *tag != 88) sim_fail("corruption", "iterator damaged");
    if (tag) *tag = 0;
    count("live_iter", -1);
  }
  T *at() const {
    if (!tag || *tag != 88) sim_fail("corruption", "iterator used outside its lifetime or after it was moved from");
    return p;
  }
  T *to(difference_type d) const {
    T *q = at();
    if (d < b - q || d > e - q) sim_fail("algorithm", "an iterator %ld past the start of %ld was advanced by %ld", q - b, e - b, d);
    return q + d;
  }
  T &deref(T *q) const {
    if (q == e) sim_fail("algorithm", "the end iterator of %ld elements was dereferenced", e - b);
    return *q;
  }
  T &operator*() const { return deref(at()); }
  T *operator->() const { return &deref(at()); }
  T &operator[](difference_type d) const { return deref(to(d)); }
  CheckIt &operator+=(difference_type d) { return p = to(d), *this; }
  CheckIt &operator-=(difference_type d) { return p = to(-d), *this; }
  CheckIt &operator++() { return p = to(1), *this; }
  CheckIt &operator--() { return p = to(-1), *this; }
  CheckIt operator++(int) {
    CheckIt c = *this;
    p = to(1);
    return c;
  }
  CheckIt operator--(int) {
    CheckIt c = *this;
    p = to(-1);
    return c;
  }
  friend CheckIt operator+(CheckIt const &i, difference_type d) { return {i.b, i.e, i.to(d)}; }
  friend CheckIt operator+(difference_type d, CheckIt const &i) { return {i.b, i.e, i.to(d)}; }
  friend CheckIt operator-(CheckIt const &i, difference_type d) { return {i.b, i.e, i.to(-d)}; }
  friend difference_type operator-(CheckIt const &x, CheckIt const &y) { return x.at() - y.at(); }
  friend bool operator==(CheckIt const &x, CheckIt const &y) { return x.at() == y.at(); }
  friend auto operator<=>(CheckIt const &x, CheckIt const &y) { return x.at() <=> y.at(); }
};
template <class T>
CheckIt<T> first_of(T *d, int n) { return {d, d + n, d}; }
template <class T>
CheckIt<T> last_of(T *d, int n) { return {d, d + n, d + n}; }

// ------------------------------------------------------------------------------------------------ running

/// Type-erased scheduler: the algorithms are compiled once for all pools.
struct AnySched {
  void *p;
  void (*fn)(void *, lf::submit_handle);
  void schedule(lf::submit_handle h) { fn(p, h); }
};
template <class P>
AnySched any_sched(P &p) {
  return {&p, [](void *q, lf::submit_handle h) { static_cast<P *>(q)->schedule(h); }};
}

/// Run the algorithm beside a sibling inside a fork-join scope of another task.
inline constexpr auto nested = []<class Alg, class... Args>(auto self, Alg alg, Args... args) -> lf::task<lf::async_result_t<Alg, Args...>> {
  using R = lf::async_result_t<Alg, Args...>;
  auto fill = co_await lf::co_new<std::byte>(static_cast<std::size_t>(1 + A.filler)); // move the end of the stack block
  co_await lf::fork(nap)(1);
  if constexpr (std::is_void_v<R>) {
    try {
      co_await lf::just(alg)(args...);
    } catch (...) {
      self.stash_exception();
    }
    try {
      co_await lf::fork(nap)(2);
    } catch (...) {
      self.stash_exception();
    }
    co_await lf::join;
    co_return;
  } else {
    std::optional<R> r;
    try {
      r.emplace(co_await lf::just(alg)(args...));
    } catch (...) {
      self.stash_exception();
    }
    co_await lf::join;
    co_return std::move(*r);
  }
};

NOSAN inline void gen_state(int maxn, bool fun, bool proj, bool op) {
  A = {};
  A.n = static_cast<int>(sim_choose(static_cast<u32>(maxn + 1)));
  if (sim_choose(4) == 0 && A.n > 4) A.n = static_cast<int>(sim_choose(5));
  A.grain = 1 + static_cast<i64>(sim_choose(static_cast<u32>(A.n + 3)));
  if (sim_choose(2)) A.grain = 1 + static_cast<i64>(sim_choose(4));
  if (sim_choose(24) == 0) { // long, in not too many pieces
    A.n = maxn + 1 + static_cast<int>(sim_choose(700));
    A.grain = A.n / 24 + static_cast<i64>(sim_choose(static_cast<u32>(A.n)));
    sim_cover("long_range");
  }
  if (sim_choose(24) == 0) { // "do not split"
    A.grain = std::numeric_limits<std::ptrdiff_t>::max() - static_cast<i64>(sim_choose(2));
    sim_cover("huge_grain");
  }
  A.style = static_cast<int>(sim_choose(4));
  if (sim_choose(3) == 0 && A.n > 0) {
    int k = 1 + static_cast<int>(sim_choose(3));
    for (int i = 0; i < k; ++i) {
      Site sites[3];
      int m = 0;
      if (fun) sites[m++] = S_FUN;
      if (proj) sites[m++] = S_PROJ;
      if (op) sites[m++] = S_OP;
      Site s = sites[sim_choose(static_cast<u32>(m))];
      int at = static_cast<int>(sim_choose(static_cast<u32>(std::min(A.n, 64))));
      if (at < 64) A.thr[s] |= 1ull << at;
    }
  }
  A.filler = sim_choose(3) ? static_cast<int>(sim_choose(3900)) : 0;
  A.alloc = sim_choose(4) ? 0 : 1 + static_cast<int>(sim_choose(12));
  sim_describe(" n=%d grain=%ld style=%d throws fun=%lx proj=%lx op=%lx filler=%d alloc=%d", A.n, static_cast<long>(A.grain), A.style,
               A.thr[S_FUN], A.thr[S_PROJ], A.thr[S_OP], A.filler, A.alloc);
}

/// Runs `f` (which runs the algorithm to completion); true if it returned, false if it threw one of the thrown exceptions.
template <class F>
bool run_algo(char const *what, F &&f) {
  bool ok = false;
  A.failed0 = sim_alloc_failures();
  try {
    f();
    ok = true;
  } catch (Err const &e) {
    if (!was_thrown(e.origin)) sim_fail("exception", "%s threw an exception (origin %d) nobody raised", what, e.origin);
    sim_cover("algorithm_threw");
  } catch (lf::exception_before_join const &) {
    sim_fail("exception", "%s leaked exception_before_join instead of the user's exception", what);
  } catch (std::bad_alloc const &) {
    if (sim_alloc_failures() == A.failed0) sim_fail("exception", "%s threw bad_alloc but no allocation failed", what);
    sim_cover("algorithm_out_of_memory");
  } catch (std::exception const &e) {
    sim_fail("exception", "%s threw %s", what, e.what());
  }
  if (A.active) sim_fail("barrier", "%s %s while %d of its function invocations were still running", what, ok ? "returned" : "threw", A.active);
  if (ok && any_thrown()) sim_fail("exception", "%s returned normally although an invocation threw", what);
  if (ok && sim_alloc_failures() != A.failed0) sim_fail("exception", "%s returned normally although an allocation it needed failed", what);
  return ok;
}

/// After the pool is gone nothing may have run late, and every object is dead.
NOSAN inline void check_late(u64 calls) {
  if (A.calls != calls) sim_fail("barrier", "%lu user function(s) started after the algorithm had returned", A.calls - calls);
}
NOSAN inline void check_algo_leaks() {
  check_no_user_leak();
  if (counted("live_seg")) sim_fail("leak", "%ld element value(s) leaked", counted("live_seg"));
  if (counted("live_functor")) sim_fail("leak", "%ld functor copies leaked", counted("live_functor"));
  if (counted("live_iter")) sim_fail("leak", "%ld iterator copies leaked", counted("live_iter"));
}

#define ALGO_RUN(...)                                                                                                  \
  with_pool(P_ALL, [&](auto &pool) {                                                                                   \
    AnySched sched = any_sched(pool);                                                                                  \
    __VA_ARGS__;                                                                                                           \
  })

/// Runs alg(args...) directly as the root task or nested inside another task.
template <class Alg, class... Args>
auto launch(AnySched &s, int mode, Alg alg, Args... args) {
  // Growing a stack may fail anywhere in it; handing a whole stack over (which needs a fresh, smaller one) may not.
  struct Faults {
    Faults() { if (A.alloc) sim_alloc_faults_min(static_cast<u32>(A.alloc), 4096); }
    ~Faults() { sim_alloc_faults_min(0, 0); }
  } faults;
  if (mode & 1) return lf::sync_wait(s, nested, alg, args...);
  return lf::sync_wait(s, alg, args...);
}

} // namespace
