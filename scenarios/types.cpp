// Return addresses and values of every kind: C01 (results reach their slot), C03 (who gets the exception), C05 (lifetimes).
#include "common.hpp"

#include <list>

// Functions that are declared here and implemented elsewhere (at the end of this file).
LF_FWD_DECL(std::string, x_str, int lvl, int k, Payload p);
LF_FWD_DECL(int &, x_ref, int lvl, int k, std::vector<int> &v);

namespace {

enum Kind { K_STR, K_EV_UPTR, K_EV_REF, K_TRY_STR, K_TRY_VOID, K_OPT, K_ITER, K_SHARED, K_DISCARD, K_LIFT, K_ASSIGN, K_BRACKET,
            K_REFARG, K_TRY_REF, K_LISTIT, K_CONV, K_X_STR, K_X_TRY, K_X_REF, K_X_DROP, K_KEEP, K_BRACE, K_SINK, K_THROW_LIFT, K_EV_BOOM, K_TRY_BOOM, K_J_VOID, K_J_VAL,
            K_J_REF, K_J_STR, K_J_UPTR, K_J_NODEF, K_FN, K_TMPFN, K_CTX, K_RREF, K_KINDS };

struct Plan {
  u64 use;    // bit k: kind k takes part
  u64 forked; // bit k: forked, else called
  u64 thr;    // bit k: child throws (kinds that may)
  int depth;
  int naps;
};
Plan PL[4]; // the last level: external functions that recurse
int g_runs[4][K_KINDS];

NOSAN void ran(int lvl, int k) { g_runs[lvl][k]++; }
NOSAN int runs(int lvl, int k) { return g_runs[lvl][k]; }

struct NoDefault {
  explicit NoDefault(int x) : v(new int(x)) { count("live_nd"); }
  NoDefault(NoDefault &&o) noexcept : v(std::move(o.v)) { count("live_nd"); }
  NoDefault &operator=(NoDefault &&) = default;
  ~NoDefault() { count("live_nd", -1); }
  std::unique_ptr<int> v;
};

/// Assignment from the child's result may throw: that is an exception of the child.
struct Picky {
  int v = -1;
  Picky &operator=(int x) {
    if (x < 0) throw Err(900 + -x);
    v = x;
    return *this;
  }
};

/// Construction from the child's result may throw: that is an exception of the child too, and there is no result.
struct Boom {
  Boom(int x) {
    if (x < 0) throw Err(900 + -x);
    v = std::make_unique<int>(x);
    count("live_nd");
  }
  Boom(Boom &&o) noexcept : v(std::move(o.v)) { count("live_nd"); }
  Boom &operator=(Boom &&) = default;
  ~Boom() { count("live_nd", -1); }
  std::unique_ptr<int> v;
};

/// Convertible result: task<long> written to a std::string-like sink through conversion.
struct Wide {
  std::unique_ptr<u64> p;
  Wide() = default;
  Wide &operator=(u64 x) {
    p = std::make_unique<u64>(x);
    return *this;
  }
};

/// Only a std::string itself can be stored here: other returned types are converted first.
struct Sink {
  std::string s;
  Sink &operator=(std::string &&x) {
    s = std::move(x);
    return *this;
  }
  Sink &operator=(char const *) = delete;
};

inline constexpr auto leaf = [](auto, int n) -> lf::task<int> {
  sim_point();
  co_return n;
};

#define NAP(lvl)                                                                                                       \
  do {                                                                                                                 \
    if (PL[lvl].naps & 1) sim_point();                                                                                 \
    if (PL[lvl].naps & 2) {                                                                                            \
      int q = 0;                                                                                                       \
      co_await lf::fork(&q, leaf)(3);                                                                                  \
      co_await lf::call(leaf)(4);                                                                                      \
      co_await lf::join;                                                                                               \
      if (q != 3) sim_fail("result", "nested leaf returned %d", q);                                                    \
    }                                                                                                                  \
  } while (0)

std::string str_of(int lvl, int k) { return std::string(static_cast<size_t>(25 + k), static_cast<char>('A' + lvl)) + std::to_string(k); }

inline constexpr auto f_str = [](auto, int lvl, int k, Payload p) -> lf::task<std::string> {
  ran(lvl, k);
  NAP(lvl);
  p.check(k, "child");
  if (PL[lvl].thr >> k & 1) throw Err(lvl * 100 + k);
  co_return str_of(lvl, k);
};
inline constexpr auto f_uptr = [](auto, int lvl, int k, std::unique_ptr<int> in) -> lf::task<std::unique_ptr<int>> {
  ran(lvl, k);
  NAP(lvl);
  *in += 1;
  co_return std::move(in);
};
inline constexpr auto f_ref = [](auto, int lvl, int k, std::vector<int> &v) -> lf::task<int &> {
  ran(lvl, k);
  NAP(lvl);
  v[static_cast<size_t>(k)] = 4000 + k;
  if (PL[lvl].thr >> k & 1) throw Err(lvl * 100 + k);
  co_return v[static_cast<size_t>(k)];
};
inline constexpr auto f_void = [](auto, int lvl, int k, Payload p) -> lf::task<void> {
  ran(lvl, k);
  NAP(lvl);
  p.check(k, "child");
  if (PL[lvl].thr >> k & 1) throw Err(lvl * 100 + k);
};
inline constexpr auto f_nodef = [](auto, int lvl, int k) -> lf::task<NoDefault> {
  ran(lvl, k);
  NAP(lvl);
  co_return NoDefault(k * 7);
};
inline constexpr auto f_int = [](auto, int lvl, int k, int r) -> lf::task<int> {
  ran(lvl, k);
  NAP(lvl);
  co_return r;
};
inline constexpr auto f_u64 = [](auto, int lvl, int k) -> lf::task<u64> {
  ran(lvl, k);
  NAP(lvl);
  co_return mix(static_cast<u64>(k), 1);
};
inline constexpr auto f_refarg = [](auto, int lvl, int k, std::string &out, std::string const &in) -> lf::task<void> {
  ran(lvl, k);
  out = in;
  NAP(lvl);
  out += "!";
};
/// Returns an object that is not its own: it must be copied.
inline constexpr auto f_keep = [](auto, int lvl, int k, std::string &s) -> lf::task<std::string> {
  ran(lvl, k);
  NAP(lvl);
  co_return s;
};
inline constexpr auto f_brace = [](auto, int lvl, int k) -> lf::task<std::vector<std::string>> {
  ran(lvl, k);
  NAP(lvl);
  co_return {str_of(lvl, k), "and another string, also long"};
};
inline constexpr auto f_literal = [](auto, int lvl, int k) -> lf::task<std::string> {
  ran(lvl, k);
  NAP(lvl);
  co_return "a literal that becomes a string when returned";
};
inline constexpr auto f_boom = [](auto, int r) -> lf::task<Boom> {
  sim_point();
  co_return Boom(r);
};
inline constexpr auto f_boom_conv = [](auto, int r) -> lf::task<Boom> {
  sim_point();
  co_return r;
};
int plain_thrower(int lvl, int k) {
  ran(lvl, k);
  if (PL[lvl].thr >> k & 1) throw Err(lvl * 100 + k);
  return 17;
}
void plain_void(int lvl, int k, std::string &out, std::unique_ptr<int> in) {
  ran(lvl, k);
  if (PL[lvl].thr >> k & 1) throw Err(lvl * 100 + k);
  out = std::to_string(*in);
}
std::unique_ptr<int> plain_value(int lvl, int k, std::unique_ptr<int> in) {
  ran(lvl, k);
  if (PL[lvl].thr >> k & 1) throw Err(lvl * 100 + k);
  ++*in;
  return in;
}
int const &plain_ref(int lvl, int k, std::vector<int> const &v) {
  ran(lvl, k);
  return v[static_cast<size_t>(k)];
}
std::string plain_function(int k, std::string const &s) { return s + std::to_string(k); }

/// A function object that owns something: each task works with a copy of its own, which recursion copies again.
struct FnObj : Stateful {
  int base;
  explicit FnObj(int b) : base(b) {}
  auto operator()(auto self, int lvl, int k, int more, int hint) const -> lf::task<int> {
    if (more == 2) ran(lvl, k);
    use_own(self);
    NAP(lvl);
    int a = 0, b = 0;
    if (more) {
      co_await lf::fork(&a, self)(lvl, k, more - 1, hint);
      co_await lf::call(&b, self)(lvl, k, more - 1, hint);
      co_await lf::join;
    }
    use_own(self);
    if constexpr (requires { unwrap(self).base; })
      co_return a + b + unwrap(self).base;
    else
      co_return a + b + hint;
  }
};
void *g_ctx[64];
NOSAN bool right_context(void *c) { // a thread is the same worker throughout
  int me = sim_tid();
  if (me >= 64) return true;
  void *&o = g_ctx[me];
  if (!o) o = c;
  for (int i = 0; i < 64; ++i)
    if (i != me && g_ctx[i] == c) return false;
  return c && o == c;
}
inline constexpr auto f_ctx = [](auto self, int lvl, int k) -> lf::task<int> {
  ran(lvl, k);
  if (!right_context(self.context())) sim_fail("identity", "context() is not that of the executing worker");
  NAP(lvl);
  if (!right_context(self.context())) sim_fail("identity", "context() is not that of the executing worker after a pause");
  co_return self.tagged == lf::tag::fork ? 1 : self.tagged == lf::tag::call ? 2 : 3;
};
inline constexpr auto f_rref = [](auto, int lvl, int k, std::string &s) -> lf::task<std::string &&> {
  ran(lvl, k);
  NAP(lvl);
  s += "?";
  co_return std::move(s);
};

#define LAUNCH(k, target, fn, ...)                                                                                     \
  do {                                                                                                                 \
    if (pl.use >> (k) & 1) {                                                                                           \
      if (pl.forked >> (k) & 1)                                                                                        \
        co_await lf::fork(target, fn)(__VA_ARGS__);                                                                    \
      else                                                                                                             \
        co_await lf::call(target, fn)(__VA_ARGS__);                                                                    \
    }                                                                                                                  \
  } while (0)

inline constexpr auto parent = [](auto self, int lvl, Payload pay) -> lf::task<u64> {
  Plan const &pl = PL[lvl];
  std::string s0;
  lf::eventually<std::unique_ptr<int>> ev_u;
  std::vector<int> v(K_KINDS, -1);
  lf::eventually<int &> ev_r;
  lf::try_eventually<std::string> try_s;
  lf::try_eventually<void> try_v;
  lf::try_eventually<int &> try_r;
  std::optional<NoDefault> opt;
  std::vector<int> slots(4, -1);
  std::list<int> lst{-1, -1, -1};
  auto shared = std::make_shared<int>(-1);
  std::weak_ptr<int> weak = shared;
  std::string x_s;
  lf::try_eventually<std::string> x_try;
  lf::eventually<int &> x_r;
  std::string lifted, arg = "lifted-argument-that-is-long", bracket, sref, big = "a string long enough to be on the heap";
  std::string const keep_val = "an object of the caller that the child returns";
  std::string keep_src = keep_val, keep;
  std::vector<std::string> brace;
  Sink sink;
  lf::try_eventually<int> try_lift;
  Picky picky;
  lf::eventually<Boom> ev_boom;
  lf::try_eventually<Boom> try_boom;
  Wide wide;
  u64 below = 0;
  FnObj const fn(7);
  int fn_val = -1, tmpfn_val = -1, ctx_val = -1;
  std::string rref_src = "a string that the child passes on by rvalue reference";
  lf::eventually<std::string &&> ev_rr;
  int nine = 9, lift_id = K_THROW_LIFT;

  bool const assign_throws = pl.use & pl.thr & 1ull << K_ASSIGN, boom_throws = pl.use & pl.thr & 1ull << K_EV_BOOM;
  bool const must_throw = assign_throws || boom_throws;
  bool threw = false;

  if (pl.depth) co_await lf::fork(&below, self)(lvl + 1, Payload(50 + lvl));
  LAUNCH(K_STR, &s0, f_str, lvl, int(K_STR), Payload(K_STR));
  LAUNCH(K_EV_UPTR, &ev_u, f_uptr, lvl, int(K_EV_UPTR), std::make_unique<int>(70));
  LAUNCH(K_EV_REF, &ev_r, f_ref, lvl, int(K_EV_REF), v);
  LAUNCH(K_TRY_STR, &try_s, f_str, lvl, int(K_TRY_STR), Payload(K_TRY_STR));
  LAUNCH(K_TRY_VOID, &try_v, f_void, lvl, int(K_TRY_VOID), Payload(K_TRY_VOID));
  LAUNCH(K_OPT, &opt, f_nodef, lvl, int(K_OPT));
  LAUNCH(K_ITER, slots.begin() + 2, f_int, lvl, int(K_ITER), 31);
  if (pl.use >> K_SHARED & 1) {
    std::shared_ptr<int> mine = shared;
    shared.reset(); // from here the child owns the slot
    if (pl.forked >> K_SHARED & 1)
      co_await lf::fork(std::move(mine), f_int)(lvl, int(K_SHARED), 32);
    else
      co_await lf::call(std::move(mine), f_int)(lvl, int(K_SHARED), 32);
  }
  if (pl.use >> K_DISCARD & 1) {
    if (pl.forked >> K_DISCARD & 1)
      co_await lf::fork(f_str)(lvl, int(K_DISCARD), Payload(K_DISCARD));
    else
      co_await lf::call(f_str)(lvl, int(K_DISCARD), Payload(K_DISCARD));
  }
  LAUNCH(K_LIFT, &lifted, lf::lift, plain_function, nine, arg);
  LAUNCH(K_ASSIGN, &picky, f_int, lvl, int(K_ASSIGN), assign_throws ? -5 : 5);
  if (pl.use >> K_BRACKET & 1) {
    if (pl.forked >> K_BRACKET & 1)
      co_await lf::fork[&bracket, f_str](lvl, int(K_BRACKET), Payload(K_BRACKET));
    else
      co_await lf::call[&bracket, f_str](lvl, int(K_BRACKET), Payload(K_BRACKET));
  }
  if (pl.use >> K_REFARG & 1) {
    if (pl.forked >> K_REFARG & 1)
      co_await lf::fork(f_refarg)(lvl, int(K_REFARG), sref, big);
    else
      co_await lf::call(f_refarg)(lvl, int(K_REFARG), sref, big);
  }
  LAUNCH(K_TRY_REF, &try_r, f_ref, lvl, int(K_TRY_REF), v);
  LAUNCH(K_LISTIT, std::next(lst.begin()), f_int, lvl, int(K_LISTIT), 33);
  LAUNCH(K_CONV, &wide, f_u64, lvl, int(K_CONV));
  LAUNCH(K_X_STR, &x_s, x_str, lvl, int(K_X_STR), Payload(K_X_STR));
  LAUNCH(K_X_TRY, &x_try, x_str, lvl, int(K_X_TRY), Payload(K_X_TRY));
  LAUNCH(K_X_REF, &x_r, x_ref, lvl, int(K_X_REF), v);
  if (pl.use >> K_X_DROP & 1) {
    if (pl.forked >> K_X_DROP & 1)
      co_await lf::fork(x_str)(lvl, int(K_X_DROP), Payload(K_X_DROP));
    else
      co_await lf::call(x_str)(lvl, int(K_X_DROP), Payload(K_X_DROP));
  }
  LAUNCH(K_KEEP, &keep, f_keep, lvl, int(K_KEEP), keep_src);
  LAUNCH(K_BRACE, &brace, f_brace, lvl, int(K_BRACE));
  LAUNCH(K_SINK, &sink, f_literal, lvl, int(K_SINK));
  LAUNCH(K_THROW_LIFT, &try_lift, lf::lift, plain_thrower, lvl, lift_id);
  LAUNCH(K_EV_BOOM, &ev_boom, f_int, lvl, int(K_EV_BOOM), boom_throws ? -6 : 6);
  LAUNCH(K_TRY_BOOM, &try_boom, f_int, lvl, int(K_TRY_BOOM), pl.thr >> K_TRY_BOOM & 1 ? -7 : 7);
  LAUNCH(K_FN, &fn_val, fn, lvl, int(K_FN), 2, 7);
  LAUNCH(K_TMPFN, &tmpfn_val, FnObj(11), lvl, int(K_TMPFN), 2, 11);
  LAUNCH(K_CTX, &ctx_val, f_ctx, lvl, int(K_CTX));
  LAUNCH(K_RREF, &ev_rr, f_rref, lvl, int(K_RREF), rref_src);
  // just(...): called and joined at once, regular functions included, while the forked siblings go on.
#define JUST(k, ...)                                                                                                   \
  if (pl.use >> (k) & 1) {                                                                                             \
    bool const bad = pl.thr >> (k) & 1;                                                                                \
    try {                                                                                                              \
      __VA_ARGS__;                                                                                                     \
      if (bad) wrong = k;                                                                                              \
    } catch (Err const &e) {                                                                                           \
      if (!bad || e.origin != lvl * 100 + (k)) wrong = k;                                                              \
    }                                                                                                                  \
  }
  int wrong = -1;
  std::string j_out;
  JUST(K_J_VOID, co_await lf::just(plain_void)(lvl, int(K_J_VOID), j_out, std::make_unique<int>(61)); if (j_out != "61") wrong = K_J_VOID);
  JUST(K_J_VAL, std::unique_ptr<int> j = co_await lf::just(plain_value)(lvl, int(K_J_VAL), std::make_unique<int>(62)); if (!j || *j != 63) wrong = K_J_VAL);
  JUST(K_J_REF, int const &j = co_await lf::just(plain_ref)(lvl, int(K_J_REF), v); if (&j != &v[K_J_REF]) wrong = K_J_REF);
  JUST(K_J_STR, std::string j = co_await lf::just[f_str](lvl, int(K_J_STR), Payload(K_J_STR)); if (j != str_of(lvl, K_J_STR)) wrong = K_J_STR);
  JUST(K_J_UPTR, std::unique_ptr<int> j = co_await lf::just(f_uptr)(lvl, int(K_J_UPTR), std::make_unique<int>(64)); if (!j || *j != 65) wrong = K_J_UPTR);
  JUST(K_J_NODEF, NoDefault j = co_await lf::just(f_nodef)(lvl, int(K_J_NODEF)); if (!j.v || *j.v != K_J_NODEF * 7) wrong = K_J_NODEF);
  try {
    co_await lf::join;
  } catch (Err const &e) {
    threw = true;
    if (!(assign_throws && e.origin == 905) && !(boom_throws && e.origin == 906)) sim_fail("exception", "join threw origin %d, which no child let escape into the scope", e.origin);
  }
  if (must_throw && !threw) sim_fail("exception", "storing a child's result threw, the join did not");

#define ON(k) (pl.use >> (k) & 1)
#define THR(k) (pl.thr >> (k) & 1)
#define EXPECT(k, cond)                                                                                                \
  if (ON(k) && !(cond)) sim_fail("result", "return slot of kind %d does not hold the child's result after the join", static_cast<int>(k))
  for (int k = 0; k < K_KINDS; ++k)
    if (k != K_LIFT && runs(lvl, k) != static_cast<int>(ON(k))) sim_fail("exactly-once", "child of kind %d ran %d times", k, runs(lvl, k));
  if (wrong >= 0) sim_fail("result", "just(...) of kind %d did not return or throw what the function did", wrong);
  pay.check(50 + lvl - 1, "parent");
  EXPECT(K_STR, s0 == str_of(lvl, K_STR));
  EXPECT(K_EV_UPTR, ev_u.has_value() && *ev_u && **ev_u == 71);
  EXPECT(K_EV_REF, ev_r.has_value() && &*ev_r == &v[K_EV_REF] && *ev_r == 4000 + K_EV_REF);
  auto check_try = [&](int k, auto &t) {
    if (!ON(k)) {
      if (!t.empty()) sim_fail("result", "unused return object of kind %d is not empty", k);
      return;
    }
    if (t.has_exception() != static_cast<bool>(THR(k)))
      sim_fail("exception", "return object of kind %d %s an exception", k, THR(k) ? "should hold" : "holds");
    if (THR(k)) {
      if constexpr (requires { t.has_value(); })
        if (t.has_value()) sim_fail("result", "return object of kind %d holds a value and an exception", k);
      try {
        std::rethrow_exception(t.exception());
      } catch (Err const &e) {
        if (e.origin != (k == K_TRY_BOOM ? 907 : lvl * 100 + k)) sim_fail("exception", "return object of kind %d holds the exception of %d", k, e.origin);
      }
    }
  };
  check_try(K_TRY_STR, try_s);
  check_try(K_TRY_VOID, try_v);
  check_try(K_TRY_REF, try_r);
  check_try(K_X_TRY, x_try);
  if (ON(K_X_TRY) && !THR(K_X_TRY)) EXPECT(K_X_TRY, *x_try == str_of(lvl, K_X_TRY));
  EXPECT(K_X_STR, x_s == str_of(lvl, K_X_STR));
  EXPECT(K_X_REF, x_r.has_value() && &*x_r == &v[K_X_REF] && *x_r == 4000 + K_X_REF);
  if (ON(K_TRY_STR) && !THR(K_TRY_STR)) EXPECT(K_TRY_STR, *try_s == str_of(lvl, K_TRY_STR));
  if (ON(K_TRY_REF) && !THR(K_TRY_REF)) EXPECT(K_TRY_REF, &*try_r == &v[K_TRY_REF]);
  EXPECT(K_KEEP, keep == keep_val);
  if (keep_src != keep_val) sim_fail("result", "the object a child returned by value was moved from, not copied");
  EXPECT(K_BRACE, brace.size() == 2 && brace[0] == str_of(lvl, K_BRACE) && brace[1] == "and another string, also long");
  EXPECT(K_SINK, sink.s == "a literal that becomes a string when returned");
  check_try(K_THROW_LIFT, try_lift);
  if (ON(K_THROW_LIFT) && !THR(K_THROW_LIFT)) EXPECT(K_THROW_LIFT, *try_lift == 17);
  check_try(K_TRY_BOOM, try_boom);
  if (ON(K_TRY_BOOM) && !THR(K_TRY_BOOM)) EXPECT(K_TRY_BOOM, try_boom.has_value() && *try_boom->v == 7);
  EXPECT(K_EV_BOOM, boom_throws ? ev_boom.empty() : ev_boom.has_value() && *ev_boom->v == 6);
  EXPECT(K_FN, fn_val == 7 * 7);
  EXPECT(K_TMPFN, tmpfn_val == 7 * 11);
  EXPECT(K_CTX, ctx_val == (pl.forked >> K_CTX & 1 ? 1 : 2));
  if (ON(K_RREF)) {
    EXPECT(K_RREF, ev_rr.has_value() && &*ev_rr == &rref_src);
    std::string taken = *std::move(ev_rr);
    EXPECT(K_RREF, taken == "a string that the child passes on by rvalue reference?" && rref_src.empty());
  }
  EXPECT(K_OPT, opt && *opt->v == K_OPT * 7);
  EXPECT(K_ITER, slots[2] == 31 && slots[1] == -1 && slots[3] == -1);
  EXPECT(K_LISTIT, *std::next(lst.begin()) == 33);
  if (ON(K_SHARED) && !weak.expired()) sim_fail("leak", "the child's shared return address is still alive after the join");
  EXPECT(K_LIFT, lifted == "lifted-argument-that-is-long9");
  if (!assign_throws) EXPECT(K_ASSIGN, picky.v == 5);
  EXPECT(K_BRACKET, bracket == str_of(lvl, K_BRACKET));
  EXPECT(K_REFARG, sref == big + "!");
  EXPECT(K_CONV, wide.p && *wide.p == mix(K_CONV, 1));
  if (pl.depth && below != mix(static_cast<u64>(lvl) + 1, 99)) sim_fail("result", "nested parent returned the wrong value");
  if (pl.use & pl.forked) sim_nontrivial();
  co_return mix(static_cast<u64>(lvl), 99);
};

void sc_types() {
  memset(g_runs, 0, sizeof g_runs);
  memset(g_ctx, 0, sizeof g_ctx);
  int depth = static_cast<int>(sim_choose(2)) + (sim_choose(4) == 0);
  u64 const may_throw = 1ull << K_TRY_STR | 1ull << K_TRY_VOID | 1ull << K_TRY_REF | 1ull << K_ASSIGN | 1ull << K_X_TRY | 1ull << K_THROW_LIFT |
                        1ull << K_EV_BOOM | 1ull << K_TRY_BOOM | 1ull << K_J_VOID | 1ull << K_J_VAL | 1ull << K_J_STR;
  for (int l = 0; l <= 3; ++l) {
    PL[l] = {};
    PL[l].depth = l < depth;
    if (l > depth) continue;
    u32 dens = sim_choose(3);
    for (int k = 0; k < K_KINDS; ++k) {
      bool use = dens == 0 ? sim_choose(4) == 0 : dens == 1 ? sim_choose(2) : sim_choose(5) != 0;
      if (!use) continue;
      PL[l].use |= 1ull << k;
      if (sim_choose(4)) PL[l].forked |= 1ull << k;
      if ((may_throw >> k & 1) && sim_choose(3) == 0) PL[l].thr |= 1ull << k;
    }
    PL[l].naps = static_cast<int>(sim_choose(4));
    sim_describe("use=%lx fork=%lx throw=%lx naps=%d; ", PL[l].use, PL[l].forked, PL[l].thr, PL[l].naps);
  }
  with_pool(P_ALL, [&](auto &pool) {
    u64 r = lf::sync_wait(pool, parent, 0, Payload(49));
    if (r != mix(0, 99)) sim_fail("result", "root returned the wrong value");
    if (sim_choose(3) == 0) { // an external function as the root
      std::string s = lf::sync_wait(pool, x_str, 3, int(K_X_STR), Payload(K_X_STR));
      if (s != str_of(3, K_X_STR)) sim_fail("result", "external root returned the wrong value");
    }
    if (sim_choose(3) == 0) { // a function object as the root, dead before the task runs or alive until it is waited for
      auto fut = [&] { return lf::schedule(pool, FnObj(3), 3, int(K_FN), 2, 3); }();
      FnObj const fn(5);
      if (lf::sync_wait(pool, fn, 3, int(K_FN), 2, 5) != 7 * 5 || fut.get() != 7 * 3)
        sim_fail("result", "a function object as the root returned the wrong value");
    }
    if (sim_choose(3) == 0) { // a root whose result may fail to be constructed
      bool const bad = sim_choose(2);
      try {
        Boom b = sim_choose(2) ? lf::sync_wait(pool, f_boom, bad ? -3 : 3) : lf::sync_wait(pool, f_boom_conv, bad ? -3 : 3);
        if (bad || *b.v != 3) sim_fail("exception", "constructing the root's result threw, sync_wait did not");
      } catch (Err const &e) {
        if (!bad || e.origin != 903) sim_fail("exception", "sync_wait threw origin %d", e.origin);
      }
    }
  });
  check_no_user_leak();
  if (counted("live_functor")) sim_fail("leak", "%ld copies of function objects leaked", counted("live_functor"));
  if (counted("live_nd")) sim_fail("leak", "%ld result objects leaked", counted("live_nd"));
}

} // namespace

LF_IMPLEMENT_NAMED(std::string, x_str, self, int lvl, int k, Payload p) {
  ran(lvl, k);
  NAP(lvl);
  p.check(k, "external child");
  if (PL[lvl].thr >> k & 1) throw Err(lvl * 100 + k);
  if (p.id == K_X_STR && lvl < 3) { // recursion through the parameter
    std::string sub;
    co_await lf::fork(&sub, self)(3, k, Payload(k));
    co_await lf::join;
    if (sub != str_of(3, k)) sim_fail("result", "recursive external child returned the wrong value");
  }
  co_return str_of(lvl, k);
}
LF_IMPLEMENT_NAMED(int &, x_ref, /* unused */, int lvl, int k, std::vector<int> &v) {
  ran(lvl, k);
  NAP(lvl);
  v[static_cast<size_t>(k)] = 4000 + k;
  co_return v[static_cast<size_t>(k)];
}

SimScenario sim_scenarios[] = {{"types", sc_types}, {nullptr, nullptr}};
