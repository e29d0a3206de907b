// C18 fold.
#include "algo_common.hpp"

namespace {

struct OpSync : Stateful {
  Seg operator()(Seg const &a, Seg const &b) const {
    Active act;
    use();
    check_operands(a, b);
    user_step(S_OP, a.hi);
    check_operands(a, b);
    return Seg(a.lo, b.hi);
  }
};
struct OpMove : Stateful { // consumes its operands
  Seg operator()(Seg a, Seg b) const {
    Active act;
    use();
    check_operands(a, b);
    user_step(S_OP, a.hi);
    Seg r = std::move(a);
    r.hi = b.hi, *r.own = r.lo * 1000 + r.hi;
    return r;
  }
};
struct OpAsync : Stateful { // refers to its operands after suspending
  auto operator()(auto self, Seg const &a, Seg const &b) const -> lf::task<Seg> {
    Active act;
    use_own(self);
    check_operands(a, b);
    int at = a.hi;
    ASYNC_PAUSE(at);
    use_own(self);
    check_operands(a, b);
    user_step(S_OP, at);
    co_return Seg(a.lo, b.hi);
  }
};
struct OpAsyncVal : Stateful {
  auto operator()(auto self, Seg a, Seg b) const -> lf::task<Seg> {
    Active act;
    use_own(self);
    check_operands(a, b);
    int at = a.hi;
    user_step(S_OP, at);
    ASYNC_PAUSE(at);
    use_own(self);
    co_return Seg(a.lo, b.hi);
  }
};
struct AffSync : Pad {
  Aff operator()(Aff a, Aff b) const {
    Active act;
    sim_point();
    return compose(a, b);
  }
};
struct AffAsync : Stateful {
  auto operator()(auto self, Aff a, Aff b) const -> lf::task<Aff> {
    Active act;
    use_own(self);
    ASYNC_PAUSE(static_cast<int>(a.a % 3));
    use_own(self);
    co_return compose(a, b);
  }
};
struct ToSeg : Stateful {
  Seg operator()(int i) const {
    Active a;
    use();
    if (i < 0 || i >= A.n) sim_fail("algorithm", "projection applied outside the range (%d of %d)", i, A.n);
    user_step(S_PROJ, i);
    return Seg(i, i + 1);
  }
};
struct ToSegAsync : Stateful {
  auto operator()(auto self, int i) const -> lf::task<Seg> {
    Active a;
    use_own(self);
    if (i < 0 || i >= A.n) sim_fail("algorithm", "projection applied outside the range (%d of %d)", i, A.n);
    ASYNC_PAUSE(i + 1);
    use_own(self);
    user_step(S_PROJ, i);
    co_return Seg(i, i + 1);
  }
};

template <class Opt>
void check_result(Opt const &r) {
  if (r.has_value() != (A.n > 0)) sim_fail("algorithm", "fold of %d element(s) returned %s", A.n, r ? "a value" : "nothing");
  if (!r) return;
  if constexpr (std::is_same_v<Opt, std::optional<Aff>>) {
    Aff x = aff_of(0);
    for (int i = 1; i < A.n; ++i) x = compose(x, aff_of(i));
    if (!(x == *r)) sim_fail("algorithm", "fold of %d elements differs from the serial fold", A.n);
  } else {
    if (!r->ok() || r->raw) sim_fail("algorithm", "fold returned a damaged value");
    if (r->lo != 0 || r->hi != A.n) sim_fail("algorithm", "fold of %d elements returned the combination of [%d,%d)", A.n, r->lo, r->hi);
  }
}

template <class... Args, class Op, class Proj>
void fold_n(AnySched &s, int mode, Op op, Proj p, Args... rng) {
  run_algo("fold", [&] {
    if (mode & 2)
      check_result(launch(s, mode, lf::fold, rng..., op, p));
    else
      check_result(launch(s, mode, lf::fold, rng..., static_cast<std::ptrdiff_t>(A.grain), op, p));
  });
}

void sc_fold() {
  int kind = static_cast<int>(sim_choose(11));
  int mode = static_cast<int>(sim_choose(4));
  sim_describe("fold kind=%d mode=%d ", kind, mode);
  gen_state(40, false, (kind >= 3 && kind <= 6) || kind == 9, true);
  if (kind == 7 || kind == 8) memset(A.thr, 0, sizeof A.thr); // total operation
  u64 calls = 0;
  {
    std::vector<int> v;
    std::vector<Seg> segs;
    std::vector<Aff> affs;
    for (int i = 0; i < A.n; ++i) v.push_back(i), segs.emplace_back(i, i + 1), affs.push_back(aff_of(i));
    std::deque<int> dq(v.begin(), v.end());
    ALGO_RUN({
      switch (kind) {
        case 0: fold_n(sched, mode, OpSync{}, std::identity{}, segs.begin(), segs.end()); break;
        case 1: fold_n(sched, mode, OpAsync{}, std::identity{}, std::span<Seg>(segs)); break;
        case 2: fold_n(sched, mode, OpMove{}, std::identity{}, segs.cbegin(), segs.cend()); break;
        case 3: fold_n(sched, mode, OpMove{}, ToSeg{}, std::span<int const>(v)); break;
        case 4: fold_n(sched, mode, OpAsync{}, ToSegAsync{}, v.data(), v.data() + A.n); break;
        case 5: fold_n(sched, mode, OpAsyncVal{}, ToSeg{}, dq.begin(), dq.end()); break;
        case 6: fold_n(sched, mode, OpSync{}, ToSegAsync{}, std::span<int>(v)); break;
        case 7: fold_n(sched, mode, AffSync{}, std::identity{}, affs.begin(), affs.end()); break;
        case 8: fold_n(sched, mode, AffAsync{}, std::identity{}, std::span<Aff>(affs)); break;
        case 9: fold_n(sched, mode, OpAsync{}, ToSeg{}, first_of(v.data(), A.n), last_of(v.data(), A.n)); break;
        case 10:
          fold_n(sched, mode, OpSync{}, std::identity{}, std::ranges::subrange(first_of(segs.data(), A.n), last_of(segs.data(), A.n)));
          break;
      }
      calls = A.calls;
      if (A.n > A.grain) sim_nontrivial();
    });
    check_late(calls);
    for (int i = 0; i < A.n; ++i) {
      if (v[static_cast<size_t>(i)] != i || !(affs[static_cast<size_t>(i)] == aff_of(i))) sim_fail("algorithm", "fold modified its input");
      Seg const &s = segs[static_cast<size_t>(i)];
      if (!s.ok() || s.lo != i || s.hi != i + 1) sim_fail("algorithm", "fold modified input element %d", i);
    }
  }
  check_algo_leaks();
}

} // namespace

SimScenario sim_scenarios[] = {{"fold", sc_fold}, {nullptr, nullptr}};
