// C19 scan.
#include "algo_common.hpp"

namespace {

struct OpSync : Stateful {
  Seg operator()(Seg const &a, Seg const &b) const {
    Active act;
    use();
    check_operands(a, b);
    user_step(S_OP, a.hi);
    check_operands(a, b);
    return Seg(a.lo, b.hi);
  }
};
struct OpMove : Stateful {
  Seg operator()(Seg a, Seg b) const {
    Active act;
    use();
    check_operands(a, b);
    user_step(S_OP, a.hi);
    Seg r = std::move(a);
    r.hi = b.hi, *r.own = r.lo * 1000 + r.hi;
    return r;
  }
};
struct OpAsync : Stateful {
  auto operator()(auto self, Seg const &a, Seg const &b) const -> lf::task<Seg> {
    Active act;
    use_own(self);
    check_operands(a, b);
    int at = a.hi;
    ASYNC_PAUSE(at);
    use_own(self);
    check_operands(a, b);
    user_step(S_OP, at);
    co_return Seg(a.lo, b.hi);
  }
};
struct AffSync : Pad {
  Aff operator()(Aff a, Aff b) const {
    Active act;
    sim_point();
    return compose(a, b);
  }
};
struct AffAsync : Stateful {
  auto operator()(auto self, Aff a, Aff b) const -> lf::task<Aff> {
    Active act;
    use_own(self);
    ASYNC_PAUSE(static_cast<int>(a.a % 3));
    use_own(self);
    co_return compose(a, b);
  }
};
struct ToSeg : Stateful {
  Seg operator()(int i) const {
    Active a;
    use();
    if (i < 0 || i >= A.n) sim_fail("algorithm", "projection applied outside the range (%d of %d)", i, A.n);
    user_step(S_PROJ, i);
    return Seg(i, i + 1);
  }
};
struct ToSegAsync : Stateful {
  auto operator()(auto self, int i) const -> lf::task<Seg> {
    Active a;
    use_own(self);
    if (i < 0 || i >= A.n) sim_fail("algorithm", "projection applied outside the range (%d of %d)", i, A.n);
    ASYNC_PAUSE(i + 1);
    use_own(self);
    user_step(S_PROJ, i);
    co_return Seg(i, i + 1);
  }
};
struct Cook : Stateful { // in place projection: must only ever see original input
  Seg operator()(Seg const &s) const {
    Active a;
    use();
    if (!s.ok() || !s.raw || s.hi != s.lo + 1) sim_fail("algorithm", "the projection was applied to [%d,%d) which is not an input element", s.lo, s.hi);
    user_step(S_PROJ, s.lo);
    return Seg(s.lo, s.hi);
  }
};

template <class... Args, class Op, class Proj>
bool scan_n(AnySched &s, int mode, Op op, Proj p, Args... rng) {
  return run_algo("scan", [&] {
    if (mode & 2)
      launch(s, mode, lf::scan, rng..., op, p);
    else
      launch(s, mode, lf::scan, rng..., static_cast<std::ptrdiff_t>(A.grain), op, p);
  });
}

void sc_scan() {
  int kind = static_cast<int>(sim_choose(12));
  int mode = static_cast<int>(sim_choose(4));
  sim_describe("scan kind=%d mode=%d ", kind, mode);
  bool inplace = (kind >= 4 && kind <= 6) || kind == 10;
  bool aff = kind == 7 || kind == 8;
  gen_state(40, false, kind == 2 || kind == 3 || kind == 5 || kind == 9, true);
  if (aff) memset(A.thr, 0, sizeof A.thr);
  u64 calls = 0;
  {
    constexpr int G = 3; // guard cells on both sides of the output
    std::vector<int> v;
    std::vector<Seg> in, out;
    std::vector<Aff> affs, aout(static_cast<size_t>(A.n + 2 * G), Aff{9, 9});
    for (int i = 0; i < A.n; ++i) v.push_back(i), in.emplace_back(i, i + 1), affs.push_back(aff_of(i));
    for (int i = -G; i < A.n + G; ++i) {
      if (inplace && i >= 0 && i < A.n)
        out.emplace_back(i, i + 1, kind == 5);
      else
        out.emplace_back(-500 - i, -400); // never a neighbour of anything
    }
    bool ok = false;
    ALGO_RUN({
      auto o = out.begin() + G;
      switch (kind) {
        case 0: ok = scan_n(sched, mode, OpSync{}, std::identity{}, in.begin(), in.end(), o); break;
        case 1: ok = scan_n(sched, mode, OpAsync{}, std::identity{}, std::span<Seg>(in), o); break;
        case 2: ok = scan_n(sched, mode, OpMove{}, ToSeg{}, std::span<int const>(v), out.data() + G); break;
        case 3: ok = scan_n(sched, mode, OpAsync{}, ToSegAsync{}, v.data(), v.data() + A.n, o); break;
        case 4: ok = scan_n(sched, mode, OpMove{}, std::identity{}, o, o + A.n); break;
        case 5: ok = scan_n(sched, mode, OpSync{}, Cook{}, o, o + A.n); break;
        case 6: ok = scan_n(sched, mode, OpAsync{}, std::identity{}, std::span<Seg>(out.data() + G, static_cast<size_t>(A.n))); break;
        case 7: ok = scan_n(sched, mode, AffSync{}, std::identity{}, affs.begin(), affs.end(), aout.begin() + G); break;
        case 8: ok = scan_n(sched, mode, AffAsync{}, std::identity{}, std::span<Aff>(affs), aout.data() + G); break;
        case 9:
          ok = scan_n(sched, mode, OpAsync{}, ToSeg{}, first_of(v.data(), A.n), last_of(v.data(), A.n), first_of(out.data() + G, A.n));
          break;
        case 10: ok = scan_n(sched, mode, OpSync{}, std::identity{}, first_of(out.data() + G, A.n), last_of(out.data() + G, A.n)); break;
        case 11: ok = scan_n(sched, mode, OpMove{}, std::identity{}, std::span<Seg const>(in), first_of(out.data() + G, A.n)); break;
      }
      calls = A.calls;
      if (A.n > A.grain) sim_nontrivial();
    });
    check_late(calls);
    for (int i = 0; i < A.n; ++i) {
      if (v[static_cast<size_t>(i)] != i || !(affs[static_cast<size_t>(i)] == aff_of(i))) sim_fail("algorithm", "scan modified its input");
      Seg const &s = in[static_cast<size_t>(i)];
      if (!s.ok() || s.lo != i || s.hi != i + 1) sim_fail("algorithm", "scan modified input element %d", i);
    }
    if (ok && aff) {
      Aff x = {1, 0};
      for (int i = 0; i < A.n; ++i) {
        x = compose(x, aff_of(i));
        if (!(aout[static_cast<size_t>(G + i)] == x)) sim_fail("algorithm", "scan output %d of %d differs from the serial scan", i, A.n);
      }
    }
    if (ok && !aff)
      for (int i = 0; i < A.n; ++i) {
        Seg const &s = out[static_cast<size_t>(G + i)];
        if (!s.ok() || s.raw || s.lo != 0 || s.hi != i + 1)
          sim_fail("algorithm", "scan output %d of %d is the combination of [%d,%d)%s", i, A.n, s.lo, s.hi, s.ok() ? "" : ", moved from");
      }
    for (int i = -G; i < A.n + G; ++i) {
      if (i == 0 && A.n) i = A.n;
      Seg const &s = out[static_cast<size_t>(G + i)];
      if (!s.ok() || s.lo != -500 - i || s.hi != -400 || !(aout[static_cast<size_t>(G + i)] == Aff{9, 9}))
        sim_fail("algorithm", "scan touched the cell at offset %d, outside its output of %d", i, A.n);
    }
  }
  check_algo_leaks();
}

} // namespace

SimScenario sim_scenarios[] = {{"scan", sc_scan}, {nullptr, nullptr}};
