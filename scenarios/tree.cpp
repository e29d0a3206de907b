// Random strict fork-join programs run by an interpreter made of real libfork coroutines, compared with a serial model.
#include "common.hpp"

#include <condition_variable>
#include <deque>

namespace {

// ------------------------------------------------------------------------------------------------ program + model

enum Kind : u8 {
  FORK,     // fork bound to a slot
  FORKD,    // fork, result discarded
  CALL,     // call bound to a slot
  CALLD,    // call, result discarded
  FORKTRY,  // fork into an eventually-with-exception
  JOIN,     // close the scope; arg&1: rethrow a caught exception, else swallow
  JUST,     // co_await just[child](...); arg&1 rethrow (outside a scope), inside a scope: stash
  SYNC,     // fork, modifier sync, inside a scope
  SYNCOUT,  // fork, modifier sync_outside; followed by JOIN
  EAGER,    // call, modifier eager_throw, inside a scope
  EAGEROUT, // call, modifier eager_throw_outside
  RESUME,   // co_await resume_on(context arg)
  HANDOFF,  // custom context switcher: a foreign thread submits us to context arg
  STASH,    // throw + catch + stash_exception inside a scope
  THROW,    // throw outside a scope
  CONEW,    // co_new block with a forked child inside, joined before release
  POINT,    // explicit scheduling point
};
const char *kname[] = {"fork", "forkD", "call", "callD", "forkTry", "join", "just", "sync", "syncOut",
                       "eager", "eagerOut", "resumeOn", "handoff", "stash", "throw", "coNew", "point"};

struct Op {
  Kind k;
  u8 arg;
  u8 fa; // inject allocation failures around this dispatch
  i64 child; // -1: none
};

constexpr int MAXN = 48, MAXOP = 16;

struct Node {
  u8 cls;
  u8 nops;
  bool runs;    // model: executed
  bool escapes; // model: an exception leaves it
  u64 origins;  // model: which throw sites it can come from (bit = node id)
  u64 value;    // model: result
  u16 conew;    // size class argument of the co_new frames
  Op op[MAXOP];
};

struct Prog {
  int n;
  int nroots;
  int roots[4];
  Node node[MAXN];
};

Prog P;

// Written by the tasks with ordinary accesses: the race detector checks visibility.
struct Marks {
  int exec;
  int fin;
  int after[MAXOP];
};
Marks M[MAXN];

std::vector<lf::worker_context *> *g_ctx;
u64 g_seen_ctx_tid[8]; // model: tid+1 of the thread behind each context

// ------------------------------------------------------------------------------------------------ generation

struct Mix {
  int weights[17];
  int maxnodes;
  int pthrow;    // 1 in pthrow nodes throws
  int classes;   // frame classes used
  int fa;        // 1 in fa dispatches under allocation failure
  int pools;
  int maxops;
  int roots;
};

Mix const *X;

NOSAN int pickw(std::initializer_list<int> ks) {
  int tot = 0;
  for (int k : ks) tot += X->weights[k];
  if (tot == 0) return -1;
  int r = static_cast<int>(sim_choose(static_cast<u32>(tot)));
  for (int k : ks) {
    r -= X->weights[k];
    if (r < 0) return k;
  }
  return -1;
}

NOSAN bool has_child(int k) {
  return k == FORK || k == FORKD || k == CALL || k == CALLD || k == FORKTRY || k == JUST || k == SYNC || k == SYNCOUT ||
         k == EAGER || k == EAGEROUT || k == CONEW;
}

NOSAN int gen(int depth);

NOSAN void add(int id, int k, int arg, int depth) {
  Node &nd = P.node[id];
  Op o{};
  o.k = static_cast<Kind>(k);
  o.arg = static_cast<u8>(arg);
  o.child = -1;
  o.fa = X->fa && has_child(k) && sim_choose(static_cast<u32>(X->fa)) == 0;
  if (k == FORKTRY) {
    int have = 0;
    for (int i = 0; i < nd.nops; ++i) have += nd.op[i].k == FORKTRY;
    if (have >= 4) o.k = FORK, k = FORK;
    o.arg = static_cast<u8>(have);
  }
  if (has_child(k)) {
    if (P.n >= MAXN || P.n >= X->maxnodes) return;
    int slot = nd.nops++;
    nd.op[slot] = o;
    int c = gen(depth + 1);
    nd.op[slot].child = c;
    return;
  }
  nd.op[nd.nops++] = o;
}

NOSAN int gen(int depth) {
  int id = P.n++;
  Node &nd = P.node[id];
  nd = Node{};
  nd.cls = static_cast<u8>(sim_choose(static_cast<u32>(X->classes)));
  nd.conew = static_cast<u16>(nd.cls >= 3 ? 1 + sim_choose(4) : 0);
  if (depth >= 6 || P.n >= X->maxnodes || (depth > 0 && sim_choose(4) == 0)) {
    // leaf
    if (X->weights[RESUME] && sim_choose(3) == 0) add(id, RESUME, static_cast<int>(sim_choose(4)), depth);
    if (X->weights[POINT] && sim_choose(2)) add(id, POINT, 0, depth);
    if (X->pthrow && sim_choose(static_cast<u32>(X->pthrow)) == 0) add(id, THROW, 0, depth);
    return id;
  }
  int segs = 1 + static_cast<int>(sim_choose(2));
  for (int s = 0; s < segs; ++s) {
    int pre = static_cast<int>(sim_choose(3));
    bool open = false;
    for (int i = 0; i < pre && nd.nops < MAXOP - 4 && !open; ++i) {
      int k = pickw({JUST, SYNCOUT, EAGEROUT, RESUME, HANDOFF, CONEW, POINT});
      if (k < 0) break;
      if (k == JUST || k == EAGEROUT)
        add(id, k, static_cast<int>(sim_choose(3)), depth);
      else if (k == RESUME || k == HANDOFF)
        add(id, k, static_cast<int>(sim_choose(4)), depth);
      else if (k == CONEW)
        add(id, k, static_cast<int>(sim_choose(8)), depth);
      else if (k == SYNCOUT) {
        int arg = static_cast<int>(sim_choose(4)); // bit0: rethrow; bit1: join although the dispatch was synchronous
        int before = nd.nops;
        add(id, SYNCOUT, arg, depth);
        if (nd.nops > before) add(id, JOIN, arg & 1, depth);
      } else
        add(id, k, 0, depth);
    }
    if (X->pthrow && sim_choose(static_cast<u32>(X->pthrow * 3)) == 0) add(id, THROW, 0, depth);
    int body = 1 + static_cast<int>(sim_choose(static_cast<u32>(X->maxops)));
    bool scope = false, modif = false;
    for (int i = 0; i < body && nd.nops < MAXOP - 2; ++i) {
      int k = scope ? pickw({FORK, FORKD, CALL, CALLD, FORKTRY, JUST, SYNC, EAGER, RESUME, HANDOFF, STASH, POINT})
                    : pickw({FORK, FORKD, FORKTRY, CALL, CALLD});
      if (k < 0) break;
      int before = nd.nops;
      add(id, k, static_cast<int>(sim_choose(4)), depth);
      if (nd.nops > before) {
        scope = true;
        if (k == SYNC || k == EAGER) modif = true;
      }
    }
    if (scope) add(id, JOIN, modif ? 0 : static_cast<int>(sim_choose(3) != 0), depth);
  }
  if (X->pthrow && sim_choose(static_cast<u32>(X->pthrow * 2)) == 0) add(id, THROW, 0, depth);
  return id;
}

NOSAN u64 bit(int id) { return u64{1} << (id & 63); }

// Serial model.
NOSAN void eval(int id) {
  Node &nd = P.node[id];
  nd.runs = true;
  u64 acc = mix(1, static_cast<u64>(id));
  u64 sc = 0;
  bool any = false;
  int start = 0;
  for (int i = 0; i < nd.nops; ++i) {
    Op &o = nd.op[i];
    Node *c = o.child >= 0 ? &P.node[o.child] : nullptr;
    if (c) eval(static_cast<int>(o.child));
    switch (o.k) {
      case FORK: case FORKD: case CALL: case CALLD: case SYNC: case EAGER: case SYNCOUT:
        if (c->escapes) any = true, sc |= c->origins;
        break;
      case FORKTRY:
        break;
      case STASH:
        any = true, sc |= bit(id);
        break;
      case THROW:
        nd.escapes = true, nd.origins = bit(id);
        return;
      case EAGEROUT:
        if (c->escapes) {
          if (o.arg & 1) {
            nd.escapes = true, nd.origins = c->origins;
            return;
          }
          acc = mix(acc, 78);
        } else
          acc = mix(acc, c->value);
        start = i + 1;
        break;
      case CONEW:
        if (c->escapes)
          acc = mix(acc, 79);
        else
          acc = mix(acc, c->value);
        start = i + 1;
        break;
      case JUST: {
        bool inscope = false;
        for (int j = start; j < i; ++j)
          if (P.node[id].op[j].child >= 0 && nd.op[j].k != JUST) inscope = true;
        if (c->escapes) {
          if (inscope)
            any = true, sc |= c->origins;
          else if (o.arg & 1) {
            nd.escapes = true, nd.origins = c->origins;
            return;
          } else
            acc = mix(acc, 78);
        } else
          acc = mix(acc, c->value);
        break;
      }
      case JOIN:
        if (any && (o.arg & 1)) {
          nd.escapes = true, nd.origins = sc;
          return;
        }
        if (any) acc = mix(acc, 77);
        for (int j = start; j < i; ++j) {
          Op &q = nd.op[j];
          if (q.child < 0 || q.k == JUST) continue;
          Node &w = P.node[q.child];
          if (!w.escapes && q.k != FORKD && q.k != CALLD) acc = mix(acc, w.value);
          if (w.escapes && q.k == FORKTRY) acc = mix(acc, 80);
        }
        any = false, sc = 0, start = i + 1;
        break;
      default:
        break;
    }
  }
  nd.value = acc;
}

NOSAN void describe() {
  for (int r = 0; r < P.nroots; ++r) sim_describe("root %d: task %d", r, P.roots[r]);
  for (int i = 0; i < P.n; ++i) {
    char b[600];
    int n = snprintf(b, sizeof b, "task %d (frame class %d%s):", i, P.node[i].cls, P.node[i].runs ? "" : ", not reached");
    for (int j = 0; j < P.node[i].nops && n < 520; ++j) {
      Op &o = P.node[i].op[j];
      n += snprintf(b + n, sizeof b - static_cast<size_t>(n), " %s", kname[o.k]);
      if (o.child >= 0) n += snprintf(b + n, sizeof b - static_cast<size_t>(n), "(%d)", static_cast<int>(o.child));
      if (o.k == JOIN || o.k == RESUME || o.k == HANDOFF || o.k == CONEW)
        n += snprintf(b + n, sizeof b - static_cast<size_t>(n), "[%d]", o.arg);
      if (o.fa) n += snprintf(b + n, sizeof b - static_cast<size_t>(n), "!alloc");
    }
    sim_describe("%s", b);
  }
}

// ------------------------------------------------------------------------------------------------ interpreter support

// Called by the interpreter: ordinary instrumented reads of data written by other tasks.
void check_child_done(int id, int child, const char *where) {
  if (M[child].exec != 1 || M[child].fin != 1)
    sim_fail("barrier", "task %d: after %s child %d has run %d time(s), finished %d time(s)", id, where, child,
             M[child].exec, M[child].fin);
}

void check_not_started(int id, int child) {
  if (M[child].exec != 0) sim_fail("allocfail", "task %d: dispatch of %d reported bad_alloc but the child ran", id, child);
}

NOSAN void check_origin(int id, u64 origins, int origin, const char *where) {
  if (origin < 0 || !(origins & bit(origin)))
    sim_fail("exception", "task %d: %s delivered an exception thrown by task %d, possible set %llx", id, where, origin,
             static_cast<unsigned long long>(origins));
}

struct Finisher {
  int id;
  explicit Finisher(int i) : id(i) {
    M[i].exec++;
    if (M[i].exec != 1) sim_fail("exactly-once", "task %d runs for the %d. time", i, M[i].exec);
  }
  ~Finisher() { M[id].fin++; }
};

NOSAN void check_ctx(int id, lf::worker_context *have, lf::worker_context *want, int idx) {
  if (have != want) sim_fail("switch", "task %d: after resume_on(context %d) it runs on another worker", id, idx);
  u64 t = static_cast<u64>(sim_tid()) + 1;
  if (g_seen_ctx_tid[idx] == 0) {
    for (int i = 0; i < 8; ++i)
      if (i != idx && g_seen_ctx_tid[i] == t && (*g_ctx)[static_cast<size_t>(i)] != want)
        sim_fail("switch", "task %d: contexts %d and %d share thread %d", id, i, idx, sim_tid());
    g_seen_ctx_tid[idx] = t;
  } else if (g_seen_ctx_tid[idx] != t)
    sim_fail("switch", "task %d: context %d was thread %d, now %d", id, idx, static_cast<int>(g_seen_ctx_tid[idx]) - 1,
             sim_tid());
}

// ---- hand-off helper thread

struct Mailbox {
  std::mutex m;
  std::condition_variable cv;
  std::deque<std::pair<lf::submit_handle, int>> q;
  bool stop = false;
  void post(lf::submit_handle h, int to) {
    {
      std::lock_guard l(m);
      q.emplace_back(h, to);
    }
    cv.notify_one();
  }
  void run() {
    std::unique_lock l(m);
    for (;;) {
      cv.wait(l, [&] { return stop || !q.empty(); });
      if (q.empty()) return;
      auto [h, to] = q.front();
      q.pop_front();
      l.unlock();
      (*g_ctx)[static_cast<size_t>(to)]->schedule(h);
      l.lock();
    }
  }
};
Mailbox *g_mail;

struct HandOff {
  int to;
  int mode; // what the switcher does, see below
  bool await_ready() const {
    if (mode == 1) throw Err(60);
    return mode == 5; // ready: no switch
  }
  void await_suspend(lf::submit_handle h) const {
    if (mode == 2) throw Err(61); // gives up: the task goes on where it is
    if (mode == 4) return (*g_ctx)[static_cast<size_t>(to)]->schedule(h);
    g_mail->post(h, to);
  }
  int await_resume() const {
    if (mode == 3) throw Err(62); // after the switch
    return 4711;
  }
};

// ---- co_new element types

int g_elem_throw[64]; // per simulated thread: throw from the n-th construction

struct Elem { // counts constructions; can throw
  u64 v;
  NOSAN Elem() : v(0x5EED) {
    int &t = g_elem_throw[sim_tid()];
    if (t > 0 && --t == 0) throw Err(63);
    count("live_elem");
  }
  NOSAN ~Elem() { count("live_elem", -1); }
};
struct alignas(16) Wide {
  u64 a = 1, b = 2;
};

template <class T>
void check_span(std::span<T> s, size_t n, int id) {
  if (s.size() != n) sim_fail("conew", "task %d: co_new gave %zu elements, asked %zu", id, s.size(), n);
  if (reinterpret_cast<std::uintptr_t>(s.data()) % alignof(T) != 0)
    sim_fail("conew", "task %d: co_new block misaligned", id);
}

NOSAN void arm_elem_throw(int n) { g_elem_throw[sim_tid()] = n; }

void fill_span(std::span<u64> s, int id) {
  for (size_t i = 0; i < s.size(); i += (s.size() > 64 ? 61 : 1)) s[i] = mix(static_cast<u64>(id), i);
}
void test_span(std::span<u64> s, int id, const char *where) {
  for (size_t i = 0; i < s.size(); i += (s.size() > 64 ? 61 : 1))
    if (s[i] != mix(static_cast<u64>(id), i)) sim_fail("corruption", "task %d: co_new block changed (%s)", id, where);
}
NOSAN void fill_elems(std::span<Elem> s, int id) {
  for (auto &e : s) {
    if (e.v != 0x5EED) sim_fail("conew", "task %d: element not default constructed", id);
    e.v = mix(static_cast<u64>(id), 3);
  }
}
NOSAN void test_elems(std::span<Elem> s, int id) {
  for (auto &e : s)
    if (e.v != mix(static_cast<u64>(id), 3)) sim_fail("corruption", "task %d: co_new object changed", id);
}

constexpr size_t conew_sizes[] = {0, 1, 3, 40, 450, 520, 2000, 9000};

inline constexpr int canary_size[] = {0, 300, 3000, 40, 900, 9000};

template <int C>
struct Work {
  lf::task<u64> operator()(auto self, int id, Payload arg) const {
    Finisher fin(id);
    sim_alloc_faults(0, 0);
    Canary<canary_size[C]> can;
    can.arm(id);
    arg.check(id, "entry");
    if constexpr (C == 3) {
      auto mem = co_await lf::co_new<u64>(conew_sizes[P.node[id].conew]);
      auto span = mem.template get<0>();
      check_span(span, conew_sizes[P.node[id].conew], id);
      fill_span(span, id);
#define TEST_MEM(w) test_span(span, id, w)
#include "tree_body.inc"
#undef TEST_MEM
    } else if constexpr (C == 4) {
      auto m1 = co_await lf::co_new<Elem>(static_cast<size_t>(3 * P.node[id].conew));
      auto s1 = m1.template get<0>();
      check_span(s1, static_cast<size_t>(3 * P.node[id].conew), id);
      auto m2 = co_await lf::co_new<Wide>(40);
      auto s2 = m2.template get<0>();
      check_span(s2, 40, id);
      fill_elems(s1, id);
      s2[39].b = mix(9, static_cast<u64>(id));
#define TEST_MEM(w)                                                                                                    \
  do {                                                                                                                 \
    test_elems(s1, id);                                                                                                \
    if (s2[39].b != mix(9, static_cast<u64>(id)) || s2[0].a != 1) sim_fail("corruption", "task %d: wide block changed", id); \
  } while (0)
#include "tree_body.inc"
#undef TEST_MEM
    } else {
#define TEST_MEM(w) (void)0
#include "tree_body.inc"
#undef TEST_MEM
    }
  }
};

// ------------------------------------------------------------------------------------------------ driver

template <class Pool>
void run_on(Pool &pool) {
  auto ctx = contexts_of(pool);
  g_ctx = &ctx;
  Mailbox mail;
  g_mail = &mail;
  std::thread helper;
  bool const hand = X->weights[HANDOFF] && !ctx.empty();
  if (hand) helper = std::thread([&] { mail.run(); });

  auto check_result = [](int root, auto &fut) {
    Node &nd = P.node[root];
    try {
      u64 v = fut.get();
      if (nd.escapes) sim_fail("exception", "root task %d should have thrown, returned normally", root);
      if (v != nd.value)
        sim_fail("result", "root task %d returned %llx, serial elision gives %llx", root, static_cast<unsigned long long>(v),
                 static_cast<unsigned long long>(nd.value));
    } catch (Err const &e) {
      if (!nd.escapes) sim_fail("exception", "root task %d threw (origin %d), should return", root, e.origin);
      check_origin(root, nd.origins, e.origin, "the future");
    }
    check_child_done(-1, root, "get()");
  };

  auto launch = [&](int root) {
    Node &nd = P.node[root];
    for (bool fa = X->fa != 0;;) {
      try {
        if (fa) sim_alloc_faults(3, 0);
        if (nd.cls == 0) {
          auto f = lf::schedule(pool, Work<0>{}, root, Payload(root));
          sim_alloc_faults(0, 0);
          return f;
        }
        if (nd.cls == 1) {
          auto f = lf::schedule(pool, Work<1>{}, root, Payload(root));
          sim_alloc_faults(0, 0);
          return f;
        }
        auto f = lf::schedule(pool, Work<2>{}, root, Payload(root));
        sim_alloc_faults(0, 0);
        return f;
      } catch (std::bad_alloc const &) {
        sim_alloc_faults(0, 0);
        sim_cover("schedule_bad_alloc");
        check_not_started(-1, root);
        fa = sim_choose(2);
      }
    }
  };

  if (P.nroots == 1) {
    auto f = launch(P.roots[0]);
    check_result(P.roots[0], f);
  } else {
    // several roots in flight at once, all scheduled by this thread (schedule on one pool is not concurrent)
    std::vector<lf::future<u64>> fs;
    for (int i = 0; i < P.nroots; ++i) fs.push_back(launch(P.roots[i]));
    bool rev = sim_choose(2);
    for (int i = 0; i < P.nroots; ++i) {
      int j = rev ? P.nroots - 1 - i : i;
      check_result(P.roots[j], fs[static_cast<size_t>(j)]);
    }
  }
  if (hand) {
    {
      std::lock_guard l(mail.m);
      mail.stop = true;
    }
    mail.cv.notify_one();
    helper.join();
  }
}

NOSAN void generate() {
  P.n = 0;
  P.nroots = 1 + static_cast<int>(X->roots > 1 && sim_choose(3) == 0 ? sim_choose(static_cast<u32>(X->roots)) : 0);
  for (int r = 0; r < P.nroots; ++r) {
    P.roots[r] = gen(0);
    P.node[P.roots[r]].cls = static_cast<u8>(P.node[P.roots[r]].cls % 3);
  }
  for (int r = 0; r < P.nroots; ++r) eval(P.roots[r]);
  describe();
}

NOSAN void final_checks() {
  for (int i = 0; i < P.n; ++i) {
    Node &nd = P.node[i];
    if (M[i].exec != (nd.runs ? 1 : 0) || M[i].fin != (nd.runs ? 1 : 0))
      sim_fail("exactly-once", "task %d ran %d time(s), finished %d time(s); the program runs it %d time(s)", i, M[i].exec,
               M[i].fin, nd.runs ? 1 : 0);
  }
  check_no_user_leak();
  if (counted("live_elem")) sim_fail("leak", "%ld co_new objects not destroyed", counted("live_elem"));
}

void run_mix(Mix const &x) {
  X = &x;
  generate();
  with_pool(x.pools, [](auto &p) { run_on(p); });
  final_checks();
}

//                       FORK FORKD CALL CALLD TRY JOIN JUST SYNC SYNCOUT EAGER EAGEROUT RESUME HAND STASH THROW CONEW POINT
Mix const m_plain   = {{6,   2,    3,   1,    0,  0,   1,   0,   0,      0,    0,       0,     0,   0,    0,    0,    1}, 22, 0, 3, 0, P_ALL, 4, 3};
Mix const m_exc     = {{6,   2,    3,   1,    2,  0,   2,   0,   0,      0,    0,       0,     0,   1,    0,    0,    1}, 18, 4, 2, 0, P_ALL, 4, 3};
Mix const m_mod     = {{4,   1,    2,   0,    0,  0,   1,   4,   4,      4,    4,       0,     0,   0,    0,    0,    1}, 16, 4, 2, 0, P_ALL, 4, 1};
Mix const m_mem     = {{6,   1,    3,   1,    0,  0,   2,   0,   0,      0,    0,       0,     0,   0,    0,    4,    0}, 18, 10, 5, 0, P_ALL, 3, 2};
Mix const m_alloc   = {{6,   2,    3,   1,    1,  0,   2,   1,   1,      1,    1,       0,     0,   0,    0,    3,    0}, 14, 8, 5, 2, P_ALL, 3, 2};
Mix const m_switch  = {{6,   1,    3,   1,    1,  0,   2,   0,   0,      0,    0,       5,     0,   0,    0,    1,    1}, 16, 8, 4, 0, P_MULTI, 3, 3};
Mix const m_hand    = {{6,   1,    3,   1,    0,  0,   1,   0,   0,      0,    0,       3,     4,   0,    0,    0,    1}, 12, 8, 2, 0, P_MULTI, 3, 2};
Mix const m_wide    = {{9,   2,    1,   0,    0,  0,   0,   0,   0,      0,    0,       0,     0,   0,    0,    0,    1}, 30, 0, 1, 0, P_MULTI, 10, 1};
Mix const m_all     = {{6,   2,    3,   1,    2,  0,   2,   2,   2,      2,    2,       2,     1,   1,    0,    2,    1}, 18, 8, 5, 0, P_ALL, 4, 3};

void sc_plain() { run_mix(m_plain); }
void sc_exc() { run_mix(m_exc); }
void sc_mod() { run_mix(m_mod); }
void sc_mem() { run_mix(m_mem); }
void sc_alloc() { run_mix(m_alloc); }
void sc_switch() { run_mix(m_switch); }
void sc_hand() { run_mix(m_hand); }
void sc_wide() { run_mix(m_wide); }
void sc_all() { run_mix(m_all); }

} // namespace

SimScenario sim_scenarios[] = {{"plain", sc_plain}, {"exc", sc_exc},       {"mod", sc_mod},   {"mem", sc_mem},
                               {"alloc", sc_alloc}, {"switch", sc_switch}, {"hand", sc_hand}, {"wide", sc_wide},
                               {"all", sc_all},     {nullptr, nullptr}};
