// C09 deque, C10 submission list, C11 event_count on their own, driven by simulated threads.
#include "common.hpp"

#include <algorithm>
#include <atomic>
#include <functional>

namespace {

// ------------------------------------------------------------------------------------------------ deque

enum OpKind : u8 { PUSH, POP, STEAL };
enum Res : u8 { GOT, EMPTY, LOST };

struct Rec {
  OpKind k;
  Res r;
  int item;
  u64 inv, ret;
};

constexpr int MAXT = 4, MAXH = 40;
Rec H[MAXT][MAXH];
int HN[MAXT];

NOSAN int begin_op(int t, OpKind k, int item) {
  int i = HN[t]++;
  if (i >= MAXH) sim_fail("harness", "history too long");
  H[t][i] = Rec{k, EMPTY, item, sim_step(), ~u64{0}};
  return i;
}
NOSAN void end_op(int t, int i, Res r, int item) {
  H[t][i].r = r;
  if (H[t][i].k != PUSH) H[t][i].item = item;
  H[t][i].ret = sim_step();
}

/// Exhaustive linearization search over one recorded history (thread 0 owns the deque).  The contents of the model are a
/// function of the per-thread progress, so the search is over progress vectors.
NOSAN bool linearizable(bool realtime) {
  int dim[MAXT];
  size_t total = 1;
  for (int t = 0; t < MAXT; ++t) dim[t] = HN[t] + 1, total *= static_cast<size_t>(dim[t]);
  std::vector<u8> seen(total, 0);
  std::vector<std::array<int, MAXT>> stack;
  stack.push_back({0, 0, 0, 0});
  auto code = [&](std::array<int, MAXT> const &p) {
    size_t c = 0;
    for (int t = 0; t < MAXT; ++t) c = c * static_cast<size_t>(dim[t]) + static_cast<size_t>(p[static_cast<size_t>(t)]);
    return c;
  };
  std::vector<int> content;
  while (!stack.empty()) {
    auto p = stack.back();
    stack.pop_back();
    size_t c = code(p);
    if (seen[c]) continue;
    seen[c] = 1;
    bool done = true;
    for (int t = 0; t < MAXT; ++t) done = done && p[static_cast<size_t>(t)] == HN[t];
    if (done) return true;
    // contents after the ops in p
    content.clear();
    for (int i = 0; i < p[0]; ++i)
      if (H[0][i].k == PUSH && H[0][i].r == GOT) content.push_back(H[0][i].item);
    for (int t = 0; t < MAXT; ++t)
      for (int i = 0; i < p[static_cast<size_t>(t)]; ++i)
        if (H[t][i].k != PUSH && H[t][i].r == GOT) {
          auto it = std::find(content.begin(), content.end(), H[t][i].item);
          if (it != content.end()) content.erase(it);
        }
    u64 minret = ~u64{0};
    if (realtime)
      for (int t = 0; t < MAXT; ++t)
        if (p[static_cast<size_t>(t)] < HN[t]) minret = std::min(minret, H[t][p[static_cast<size_t>(t)]].ret);
    for (int t = 0; t < MAXT; ++t) {
      int i = p[static_cast<size_t>(t)];
      if (i >= HN[t]) continue;
      Rec const &o = H[t][i];
      if (o.inv > minret) continue;
      bool ok = false;
      if (o.k == PUSH)
        ok = true;
      else if (o.r == LOST)
        ok = true;
      else if (o.r == EMPTY)
        ok = content.empty() || (!realtime && o.k == STEAL);
      else if (o.k == POP)
        ok = !content.empty() && content.back() == o.item;
      else
        ok = !content.empty() && content.front() == o.item;
      if (ok) {
        auto q = p;
        ++q[static_cast<size_t>(t)];
        stack.push_back(q);
      }
    }
  }
  return false;
}

NOSAN void print_history() {
  for (int t = 0; t < MAXT; ++t)
    for (int i = 0; i < HN[t]; ++i) {
      static const char *kn[] = {"push", "pop", "steal"};
      static const char *rn[] = {"ok", "empty", "lost"};
      sim_describe("%s %s item=%d %s [%lu,%lu]", t ? "thief" : "owner", kn[H[t][i].k], H[t][i].item, rn[H[t][i].r], H[t][i].inv,
                   H[t][i].ret);
    }
}

struct Item {
  int id;
  int data;
};

template <class T>
struct Conv;
template <>
struct Conv<Item *> {
  static Item *to(Item *a, int i) { return a + i; }
  static int from(Item *a, Item *p, int n) {
    if (p < a || p >= a + n) return -1;
    return static_cast<int>(p - a);
  }
};
template <>
struct Conv<u32> {
  static u32 to(Item *, int i) { return 0xC0DE0000u + static_cast<u32>(i); }
  static int from(Item *, u32 v, int n) { return v - 0xC0DE0000u < static_cast<u32>(n) ? static_cast<int>(v - 0xC0DE0000u) : -1; }
};
struct Pair {
  u32 a, b;
};
template <>
struct Conv<Pair> {
  static Pair to(Item *, int i) { return {static_cast<u32>(i), ~static_cast<u32>(i)}; }
  static int from(Item *, Pair v, int n) { return v.a == ~v.b && v.a < static_cast<u32>(n) ? static_cast<int>(v.a) : -1; }
};

int g_taken[4096];

NOSAN void take(int id, const char *who) {
  if (id < 0) sim_fail("deque", "%s returned something that was never pushed", who);
  if (++g_taken[id] > 1) sim_fail("deque", "%s took item %d again", who, id);
}
NOSAN void untake_all() { memset(g_taken, 0, sizeof g_taken); }
NOSAN int taken(int id) { return g_taken[id]; }

/// `big`: long runs, order and exactly-once only; otherwise short histories, full linearizability.
template <class T>
void run_deque(bool big, bool alloc_faults) {
  memset(HN, 0, sizeof HN);
  untake_all();
  int const thieves = 1 + static_cast<int>(sim_choose(3));
  std::ptrdiff_t const cap = std::ptrdiff_t{1} << sim_choose(big ? 4 : 3);
  int const nops = big ? 60 + static_cast<int>(sim_choose(400)) : 4 + static_cast<int>(sim_choose(20));
  int const per_thief = big ? 20 + static_cast<int>(sim_choose(200)) : 1 + static_cast<int>(sim_choose(7));
  int const bias = 1 + static_cast<int>(sim_choose(4)); // pushes per pop
  bool const burst = sim_choose(2);
  sim_describe("deque capacity=%td thieves=%d owner ops=%d steals each=%d push bias=%d", cap, thieves, nops, per_thief, bias);
  std::vector<Item> items(static_cast<size_t>(nops) + 1);
  int pushed = 0, accepted = 0;
  std::ptrdiff_t peak = cap; // at least the most items the deque has held
  int live_upper = 0; // upper bound of the contents as known to the owner
  std::vector<int> order; // push sequence number of accepted items == index (items are pushed once)
  {
    std::optional<lf::deque<T>> made;
    while (!made) {
      if (alloc_faults) sim_alloc_faults(3, 0);
      try {
        if (cap == 4) made.emplace();
        else made.emplace(cap);
      } catch (std::bad_alloc const &) {
        sim_cover("deque_not_created");
      }
      sim_alloc_faults(0, 0);
    }
    lf::deque<T> &d = *made;
    SIM_CHECK("deque", d.capacity() >= cap, "initial capacity");
    peak = d.capacity();
    SIM_CHECK("deque", d.empty() && d.size() == 0 && d.ssize() == 0, "not empty initially");
    std::vector<std::thread> ts;
    for (int t = 1; t <= thieves; ++t)
      ts.emplace_back([&, t] {
        int last = -1;
        for (int k = 0; k < per_thief; ++k) {
          int h = big ? 0 : begin_op(t, STEAL, -1);
          auto r = d.steal();
          if (r) {
            int id = Conv<T>::from(items.data(), *r, nops + 1);
            if (!big) end_op(t, h, GOT, id);
            take(id, "steal");
            if (items[static_cast<size_t>(id)].data != id * 7 + 1) sim_fail("deque", "thief sees stale data of item %d", id);
            if (id <= last) sim_fail("deque", "one thief stole item %d after item %d", id, last);
            last = id;
            sim_nontrivial();
            sim_cover("steal_ok");
          } else {
            if (!big) end_op(t, h, r.code == lf::err::lost ? LOST : EMPTY, -1);
            sim_cover(r.code == lf::err::lost ? "steal_lost" : "steal_empty");
            if (r.code != lf::err::lost && r.code != lf::err::empty) sim_fail("deque", "failed steal without a reason");
          }
        }
      });
    for (int i = 0; i < nops; ++i) {
      bool do_push = burst ? (i / (4 * bias)) % 2 == 0 : sim_choose(static_cast<u32>(bias) + 1) != 0;
      if (do_push) {
        int id = pushed++;
        items[static_cast<size_t>(id)].id = id;
        items[static_cast<size_t>(id)].data = id * 7 + 1;
        int h = big ? 0 : begin_op(0, PUSH, id);
        std::ptrdiff_t c0 = d.capacity();
        peak = std::max(peak, d.ssize() + 1);
        try {
          if (alloc_faults) sim_alloc_faults(2, 0);
          d.push(Conv<T>::to(items.data(), id));
          sim_alloc_faults(0, 0);
          ++accepted, ++live_upper;
          if (!big) end_op(0, h, GOT, id);
          order.push_back(id);
          if (d.capacity() != c0) sim_cover("grown");
        } catch (std::bad_alloc const &) {
          sim_alloc_faults(0, 0);
          if (!big) end_op(0, h, EMPTY, id);
          SIM_CHECK("deque", d.capacity() == c0, "failed push changed the capacity");
          sim_cover("push_bad_alloc");
        }
      } else {
        int h = big ? 0 : begin_op(0, POP, -1);
        bool e = false;
        int id = -1;
        if (sim_choose(2)) {
          auto r = d.pop();
          e = !r.has_value();
          if (r) id = Conv<T>::from(items.data(), *r, nops + 1);
        } else {
          auto r = d.pop([&]() -> std::optional<T> {
            e = true;
            return std::nullopt;
          });
          SIM_CHECK("deque", r.has_value() != e, "pop: when_empty called for a non-empty result");
          if (r) id = Conv<T>::from(items.data(), *r, nops + 1);
        }
        if (!big) end_op(0, h, e ? EMPTY : GOT, id);
        if (!e) {
          take(id, "pop");
          if (items[static_cast<size_t>(id)].data != id * 7 + 1) sim_fail("deque", "owner sees wrong data of item %d", id);
          --live_upper;
          // LIFO: the popped item is the newest accepted one not yet popped
          if (order.empty() || order.back() != id)
            sim_fail("deque", "owner popped item %d, newest is %d", id, order.empty() ? -1 : order.back());
          order.pop_back();
        } else
          sim_cover("pop_empty");
        if (e) {
          order.clear(); // everything else was stolen
          live_upper = 0;
        }
      }
      SIM_CHECK("deque", d.ssize() <= live_upper && d.ssize() >= 0, "size %td with at most %d items", d.ssize(), live_upper);
      SIM_CHECK("deque", d.capacity() >= d.ssize(), "capacity below size");
      SIM_CHECK("deque", d.capacity() <= 8 * peak, "capacity %td although there were never more than %td items", d.capacity(), peak);
    }
    for (auto &t : ts) t.join();
    // quiescent: drain
    std::ptrdiff_t left = d.ssize();
    SIM_CHECK("deque", d.empty() == (left == 0), "empty() disagrees with size");
    int n = 0;
    std::vector<int> rest;
    bool from_top = sim_choose(2);
    for (;;) {
      if (from_top) {
        auto r = d.steal();
        if (!r) {
          SIM_CHECK("deque", r.code == lf::err::empty, "uncontended steal lost a race");
          break;
        }
        rest.push_back(Conv<T>::from(items.data(), *r, nops + 1));
      } else {
        auto r = d.pop();
        if (!r) break;
        rest.push_back(Conv<T>::from(items.data(), *r, nops + 1));
      }
      ++n;
      take(rest.back(), "drain");
    }
    SIM_CHECK("deque", n == left, "drained %d items, size said %td", n, left);
    for (size_t i = 1; i < rest.size(); ++i)
      SIM_CHECK("deque", from_top ? rest[i] > rest[i - 1] : rest[i] < rest[i - 1], "drain out of order");
  }
  int tot = 0;
  for (int i = 0; i < pushed; ++i) tot += taken(i);
  SIM_CHECK("deque", tot == accepted, "%d items accepted, %d taken", accepted, tot);
  if (!big) {
    bool ok = linearizable(!sim_weak());
    if (!ok) {
      print_history();
      sim_fail("linearizability", "history is not that of an atomic deque%s", sim_weak() ? " (program order only)" : "");
    }
  }
}

void sc_deque() {
  switch (sim_choose(3)) {
    case 0: run_deque<Item *>(false, false); break;
    case 1: run_deque<u32>(false, false); break;
    default: run_deque<Pair>(false, false); break;
  }
}
void sc_deque_big() {
  if (sim_choose(2)) run_deque<Item *>(true, false);
  else run_deque<u32>(true, false);
}
void sc_deque_alloc() { run_deque<Item *>(sim_choose(3) == 0, true); }

// ------------------------------------------------------------------------------------------------ intrusive list

struct Sub;
using List = lf::intrusive_list<Sub *>;

struct Sub {
  int producer = 0;
  int seq = 0;
  int payload = 0;
  std::atomic<int> visited{0};
  std::optional<List::node> node;
};

struct Log {
  u64 inv, ret;
};

Log g_push[4][64];
bool g_done[4][64];
NOSAN void log_push(int p, int s, bool end) {
  if (end) g_push[p][s].ret = sim_step();
  else g_push[p][s] = {sim_step(), ~u64{0}}, g_done[p][s] = false;
}

void sc_list() {
  int const producers = 1 + static_cast<int>(sim_choose(3));
  int const each = 1 + static_cast<int>(sim_choose(8));
  bool const recycle = sim_choose(2);
  bool const chain = producers > 1 && sim_choose(2); // producer p+1's i-th push happens after producer p's i-th push
  sim_describe("list producers=%d items each=%d recycle=%d chained=%d", producers, each, recycle, chain);
  List list;
  std::atomic<int> progress[4] = {};
  std::atomic<int> finished{0};
  std::vector<std::thread> ts;
  for (int p = 0; p < producers; ++p)
    ts.emplace_back([&, p] {
      Sub *mine = nullptr;
      for (int i = 0; i < each; ++i) {
        if (chain && p > 0)
          while (progress[p - 1].load(std::memory_order_acquire) <= i) sim_point();
        Sub *s;
        if (mine && recycle && mine->visited.load(std::memory_order_acquire)) {
          s = mine; // the consumer is done with it: reuse the storage and its node
          s->visited.store(0, std::memory_order_relaxed);
          sim_cover("node_recycled");
        } else
          s = new Sub;
        s->producer = p;
        s->seq = i;
        s->payload = p * 1000 + i;
        s->node.emplace(s);
        log_push(p, i, false);
        list.push(&*s->node);
        log_push(p, i, true);
        progress[p].store(i + 1, std::memory_order_release);
        if (recycle) mine = s; // s may only be touched again once visited is set (never freed in that case)
      }
      finished.fetch_add(1, std::memory_order_acq_rel);
    });
  int next[4] = {};
  int total = 0;
  int empties = 0;
  bool last_round = false;
  std::vector<Sub *> keep;
  for (;;) {
    bool fin = finished.load(std::memory_order_acquire) == producers;
    u64 inv = sim_step();
    auto *n = list.try_pop_all();
    if (!n) {
      ++empties;
      // empty only if nothing whose push had returned is undelivered
      for (int p = 0; p < producers; ++p)
        if (next[p] < each && g_push[p][next[p]].ret < inv && g_push[p][next[p]].inv != 0)
          sim_fail("list", "take-all reports empty while item %d/%d was pushed", p, next[p]);
      if (fin) {
        last_round = true;
        break;
      }
      sim_point();
      continue;
    }
    int before[4];
    memcpy(before, next, sizeof before);
    int batch = 0;
    for_each_elem(n, [&](Sub *s) {
      ++batch;
      if (s->payload != s->producer * 1000 + s->seq) sim_fail("list", "stale payload of item %d/%d", s->producer, s->seq);
      if (s->seq != next[s->producer])
        sim_fail("list", "item %d/%d delivered, expected %d/%d", s->producer, s->seq, s->producer, next[s->producer]);
      if (chain && s->producer > 0 && next[s->producer - 1] <= s->seq)
        sim_fail("list", "item %d/%d delivered before %d/%d, which was pushed first", s->producer, s->seq, s->producer - 1, s->seq);
      ++next[s->producer];
      ++total;
      if (recycle) {
        keep.push_back(s);
        s->visited.store(1, std::memory_order_release);
      } else {
        s->node.reset();
        delete s;
      }
    });
    if (batch > 1) sim_nontrivial(), sim_cover("batch");
    for (int p = 0; p < producers; ++p)
      if (next[p] < each && g_push[p][next[p]].inv != 0 && g_push[p][next[p]].ret < inv)
        sim_fail("list", "take-all left item %d/%d behind", p, next[p]);
  }
  for (auto &t : ts) t.join();
  SIM_CHECK("list", last_round && total == producers * each, "%d of %d items delivered", total, producers * each);
  std::sort(keep.begin(), keep.end());
  keep.erase(std::unique(keep.begin(), keep.end()), keep.end());
  for (auto *s : keep) delete s;
}

/// The consumer resubmits visited items from inside the visit, and batches are consumed in two steps.
void sc_list_resubmit() {
  int const producers = 1 + static_cast<int>(sim_choose(2));
  int const each = 1 + static_cast<int>(sim_choose(5));
  int const rounds = 1 + static_cast<int>(sim_choose(3));
  sim_describe("list producers=%d items each=%d, every item resubmitted %d times from inside its visit", producers, each, rounds);
  List list;
  std::atomic<int> finished{0};
  std::vector<std::thread> ts;
  for (int p = 0; p < producers; ++p)
    ts.emplace_back([&, p] {
      for (int i = 0; i < each; ++i) {
        auto *s = new Sub;
        s->producer = p;
        s->seq = i;
        s->payload = 0;
        s->node.emplace(s);
        list.push(&*s->node);
      }
      finished.fetch_add(1, std::memory_order_acq_rel);
    });
  int done = 0, visits = 0;
  while (done < producers * each) {
    auto *n = list.try_pop_all();
    if (!n) {
      sim_point();
      continue;
    }
    sim_nontrivial();
    for_each_elem(n, [&](Sub *s) {
      ++visits;
      if (++s->payload > rounds) {
        ++done;
        delete s;
      } else {
        s->node.emplace(s); // new node in the same memory, pushed at once
        list.push(&*s->node);
      }
    });
  }
  for (auto &t : ts) t.join();
  SIM_CHECK("list", list.try_pop_all() == nullptr, "items left");
  SIM_CHECK("list", visits == producers * each * (rounds + 1), "%d visits", visits);
}

// ------------------------------------------------------------------------------------------------ event_count

/// Counting semaphore on an event_count: one notify_one per token.
void sc_ec_tokens() {
  int const waiters = 1 + static_cast<int>(sim_choose(3));
  int const notifiers = 1 + static_cast<int>(sim_choose(2));
  int const each = 1 + static_cast<int>(sim_choose(4));
  int const total = waiters * each;
  int const mode = static_cast<int>(sim_choose(3)); // notify_one / notify_all / mixed
  bool const manual = sim_choose(2);
  sim_describe("event_count tokens: waiters=%d x %d, notifiers=%d, mode=%d, %s", waiters, each, notifiers, mode,
               manual ? "prepare/recheck/wait" : "await");
  lf::event_count ec;
  std::atomic<int> tokens{0};
  std::atomic<int> given{0};
  auto acquire = [&]() -> bool {
    int t = tokens.load(std::memory_order_acquire);
    while (t > 0)
      if (tokens.compare_exchange_weak(t, t - 1, std::memory_order_acq_rel, std::memory_order_acquire)) return true;
    return false;
  };
  std::vector<std::thread> ts;
  for (int w = 0; w < waiters; ++w)
    ts.emplace_back([&] {
      for (int i = 0; i < each; ++i) {
        if (!manual) {
          ec.await([&]() noexcept { return acquire(); });
        } else {
          for (;;) {
            if (acquire()) break;
            auto key = ec.prepare_wait();
            if (acquire()) {
              ec.cancel_wait();
              sim_cover("cancelled");
              break;
            }
            u64 s0 = sim_futex_sleeps();
            ec.wait(key);
            if (sim_futex_sleeps() != s0) sim_cover("slept"), sim_nontrivial();
          }
        }
      }
    });
  for (int n = 0; n < notifiers; ++n)
    ts.emplace_back([&] {
      for (;;) {
        int g = given.fetch_add(1, std::memory_order_relaxed);
        if (g >= total) break;
        tokens.fetch_add(1, std::memory_order_acq_rel);
        if (mode == 0 || (mode == 2 && g % 2)) ec.notify_one();
        else ec.notify_all();
      }
    });
  if (!manual) sim_nontrivial();
  for (auto &t : ts) t.join(); // a lost wake-up is a stuck run
  SIM_CHECK("eventcount", tokens.load() == 0, "%d tokens left", tokens.load());
}

/// Every announced waiter is woken by a single notify_all, or by as many notify_one as there are waiters, and sees what was
/// written before.
void sc_ec_all() {
  int const waiters = 1 + static_cast<int>(sim_choose(4));
  bool const one = sim_choose(2);
  int const rounds = 1 + static_cast<int>(sim_choose(3));
  sim_describe("event_count: %d waiters announce, %s, %d rounds", waiters, one ? "notify_one each" : "one notify_all", rounds);
  lf::event_count ec;
  int data = 0; // plain
  std::atomic<int> announced{0}, woken{0};
  std::vector<std::thread> ts;
  for (int w = 0; w < waiters; ++w)
    ts.emplace_back([&] {
      for (int r = 0; r < rounds; ++r) {
        while (woken.load(std::memory_order_acquire) < r * waiters) sim_point(); // previous round over
        if (sim_choose(2)) { // announcing and cancelling leaves no trace
          auto k = ec.prepare_wait();
          (void)k;
          ec.cancel_wait();
        }
        auto key = ec.prepare_wait();
        announced.fetch_add(1, std::memory_order_relaxed);
        u64 s0 = sim_futex_sleeps();
        ec.wait(key);
        if (sim_futex_sleeps() != s0) sim_cover("slept"), sim_nontrivial();
        // The wake-up itself must order the notifier's write before us.
        if (!one && data != r + 1) sim_fail("eventcount", "woken waiter sees data %d in round %d", data, r);
        woken.fetch_add(1, std::memory_order_acq_rel);
      }
    });
  for (int r = 0; r < rounds; ++r) {
    while (woken.load(std::memory_order_acquire) < r * waiters) sim_point();
    while (announced.load(std::memory_order_relaxed) < (r + 1) * waiters) sim_point();
    if (!one) {
      data = r + 1;
      ec.notify_all();
    } else {
      for (int w = 0; w < waiters; ++w) ec.notify_one();
    }
  }
  for (auto &t : ts) t.join();
}

/// A flag set before the notification, waiters that poll it through await, conditions that throw.
void sc_ec_flag() {
  int const waiters = 1 + static_cast<int>(sim_choose(3));
  int const thrower = static_cast<int>(sim_choose(3));
  sim_describe("event_count flag: %d waiters, condition throws at evaluation %d in one of them", waiters, thrower);
  lf::event_count ec;
  std::atomic<bool> flag{false};
  int data = 0;
  std::vector<std::thread> ts;
  for (int w = 0; w < waiters; ++w)
    ts.emplace_back([&, w] {
      int evals = 0;
      auto cond = [&]() -> bool {
        if (w == 0 && evals++ == thrower) throw Err(7);
        return flag.load(std::memory_order_acquire);
      };
      try {
        ec.await(cond);
      } catch (Err const &e) {
        SIM_CHECK("eventcount", e.origin == 7 && w == 0, "wrong exception");
        sim_cover("condition_threw");
        ec.await([&]() noexcept { return flag.load(std::memory_order_acquire); });
      }
      SIM_CHECK("eventcount", data == 5, "await returned before the condition was true");
    });
  data = 5;
  if (sim_choose(2)) sim_point();
  flag.store(true, std::memory_order_release);
  ec.notify_all();
  sim_nontrivial();
  for (auto &t : ts) t.join();
  check_no_user_leak();
}

} // namespace

SimScenario sim_scenarios[] = {{"deque", sc_deque},
                               {"deque_big", sc_deque_big},
                               {"deque_alloc", sc_deque_alloc},
                               {"list", sc_list},
                               {"list_resubmit", sc_list_resubmit},
                               {"ec_tokens", sc_ec_tokens},
                               {"ec_all", sc_ec_all},
                               {"ec_flag", sc_ec_flag},
                               {nullptr, nullptr}};
