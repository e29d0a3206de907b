// Shared pieces of the scenarios.  Model/oracle code is NOSAN: invisible to the simulated memory model, so it neither
// hides nor causes races; everything that stands for user data is ordinary instrumented code.
#pragma once
#include <libfork.hpp>

#include "../sim/sim.h"

#include <array>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <memory>
#include <mutex>
#include <new>
#include <optional>
#include <span>
#include <string>
#include <thread>
#include <utility>
#include <vector>

#ifdef __clang__
  #define NOSAN __attribute__((disable_sanitizer_instrumentation, noinline))
#else
  #define NOSAN __attribute__((no_sanitize("thread"), noinline))
#endif

using u8 = std::uint8_t;
using u16 = std::uint16_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;
using i64 = std::int64_t;

NOSAN inline u64 mix(u64 a, u64 b) {
  u64 x = a * 0x9E3779B97F4A7C15ull + b + 0x7F4A7C15ull;
  x ^= x >> 29;
  x *= 0xBF58476D1CE4E5B9ull;
  x ^= x >> 32;
  return x;
}

NOSAN inline void count(const char *n, i64 d = 1) { *sim_counter(n) += d; }
NOSAN inline i64 counted(const char *n) { return *sim_counter(n); }

/// Exception thrown by simulated user code; its number identifies the throw site.
struct Err : std::exception {
  int origin;
  std::unique_ptr<int> heap;
  NOSAN explicit Err(int o) : origin(o), heap(new int(o)) { count("live_err"); }
  NOSAN Err(Err const &o) : std::exception(o), origin(o.origin), heap(new int(*o.heap)) { count("live_err"); }
  NOSAN ~Err() override { count("live_err", -1); }
  auto what() const noexcept -> char const * override { return "Err"; }
};

/// A by-value argument owning memory.
struct Payload {
  int id;
  std::unique_ptr<u64> p;
  explicit Payload(int i) : id(i), p(new u64(0xABCD0000u + static_cast<u64>(i))) { count("live_payload"); }
  Payload(Payload &&o) noexcept : id(o.id), p(std::move(o.p)) { count("live_payload"); }
  Payload(Payload const &) = delete;
  ~Payload() { count("live_payload", -1); }
  void check(int i, const char *where) const {
    if (id != i || !p || *p != 0xABCD0000u + static_cast<u64>(i)) {
      sim_fail("corruption", "argument of task %d damaged (%s)", i, where);
    }
  }
};

/// A functor with non-trivial copies: the library hands out copies, each must be alive while it is called.
struct Stateful {
  std::unique_ptr<int> tag;
  Stateful() : tag(new int(77)) { count("live_functor"); }
  Stateful(Stateful const &o) : tag(o.tag ? new int(*o.tag) : nullptr) { count("live_functor"); }
  Stateful(Stateful &&o) noexcept : tag(std::move(o.tag)) { count("live_functor"); } // what is left cannot be called
  Stateful &operator=(Stateful const &o) {
    if (this != &o) tag.reset(o.tag ? new int(*o.tag) : nullptr);
    return *this;
  }
  Stateful &operator=(Stateful &&o) noexcept {
    tag = std::move(o.tag);
    return *this;
  }
  ~Stateful() {
    if (tag && *tag != 77) sim_fail("corruption", "functor state damaged");
    if (tag) *tag = 0;
    count("live_functor", -1);
  }
  void use() const {
    if (!tag || *tag != 77) sim_fail("corruption", "functor used outside its lifetime or after it was moved from");
  }
};

/// The copy of a function object a task got with its first argument is usable.
template <class Self>
void use_own(Self const &self) {
  if constexpr (requires { unwrap(self).use(); }) unwrap(self).use();
}

/// Byte canary living in a coroutine frame.
template <int N>
struct Canary {
  unsigned char b[N > 0 ? N : 1];
  NOSAN void fill(int id) {
    for (int i = 0; i < N; ++i) b[i] = static_cast<unsigned char>(id * 37 + i * 11 + 5);
  }
  NOSAN int bad(int id) const {
    for (int i = 0; i < N; ++i)
      if (b[i] != static_cast<unsigned char>(id * 37 + i * 11 + 5)) return i;
    return -1;
  }
  // first and last byte with ordinary instructions, so the race detector and the heap shadow see the frame
  void arm(int id) {
    if constexpr (N > 0) {
      fill(id);
      const_cast<volatile unsigned char &>(b[0]) = static_cast<unsigned char>(id * 37 + 5);
      const_cast<volatile unsigned char &>(b[N - 1]) = static_cast<unsigned char>(id * 37 + (N - 1) * 11 + 5);
    }
  }
  void check(int id, const char *where) const {
    if constexpr (N > 0) {
      unsigned char x = const_cast<volatile unsigned char const &>(b[0]);
      unsigned char y = const_cast<volatile unsigned char const &>(b[N - 1]);
      if (x != static_cast<unsigned char>(id * 37 + 5) || y != static_cast<unsigned char>(id * 37 + (N - 1) * 11 + 5) ||
          bad(id) >= 0) {
        sim_fail("corruption", "locals of task %d changed under it (%s, byte %d of %d)", id, where, bad(id), N);
      }
    }
  }
};

enum PoolMask { P_LAZY = 1, P_BUSY = 2, P_UNIT = 4, P_MULTI = 3, P_ALL = 7 };

/// Build one of the pools in `mask` and hand it to `f(pool)`.
template <class F>
void with_pool(int mask, F &&f, int maxw = 4) {
  int kinds[3], n = 0;
  // lazy and busy pools twice as likely as the unit pool
  for (int k = 0; k < 3; ++k)
    if (mask >> k & 1) kinds[n++] = k;
  int k = kinds[sim_choose(static_cast<u32>(n))];
  if (k == 2 && n > 1 && sim_choose(3) != 0) k = kinds[sim_choose(static_cast<u32>(n - 1))];
  auto workers = static_cast<std::size_t>(k == 2 ? 1 : 1 + sim_choose(static_cast<u32>(maxw)));
  if (k != 2 && maxw >= 4 && sim_choose(10) == 0) workers = 5 + sim_choose(4);
  // Mostly one memory for all workers, sometimes a few: idle lazy workers are then counted and woken per memory.
  static const char *const machines[] = {"pack:2 [numa] core:2 pu:1", "pack:2 [numa] core:1 pu:2", "pack:3 [numa] core:1 pu:1",
                                         "pack:1 [numa] l3:2 core:2 pu:1", "pack:2 core:2 [numa] pu:1"};
  const char *machine = "pack:1 core:4 pu:1";
  if (k != 2 && sim_choose(4) == 0) {
    machine = machines[sim_choose(sizeof machines / sizeof *machines)];
    sim_cover("many_memories");
  }
  setenv("HWLOC_SYNTHETIC", machine, 1);
  auto strat = k != 2 && sim_choose(2) ? lf::numa_strategy::seq : lf::numa_strategy::fan;
  static const char *names[] = {"lazy_pool", "busy_pool", "unit_pool"};
  sim_describe("pool=%s workers=%zu machine=%s", names[k], workers, machine);
  if (k == 0) {
    lf::lazy_pool p(workers, strat);
    f(p);
  } else if (k == 1) {
    lf::busy_pool p(workers, strat);
    f(p);
  } else {
    lf::unit_pool p;
    f(p);
  }
}

template <class P>
auto contexts_of(P &p) -> std::vector<lf::worker_context *> {
  if constexpr (requires { p.contexts(); }) {
    auto s = p.contexts();
    return {s.begin(), s.end()};
  } else {
    return {};
  }
}

NOSAN inline void check_no_user_leak() {
  if (counted("live_err") != 0) sim_fail("leak", "%ld exception object(s) alive at the end", counted("live_err"));
  if (counted("live_payload") != 0) sim_fail("leak", "%ld argument object(s) alive at the end", counted("live_payload"));
}
