// Deterministic simulator for code compiled with `g++ -fsanitize=thread` whose callbacks are implemented *here*
// instead of in libtsan.  Every simulated thread is a fiber of one OS thread; the only places where control can
// move from one simulated thread to another are the callbacks / interposed calls below, and every decision taken
// there comes from one 64 bit seed (or from a replay file).  See DESIGN.md section "Simulator".
#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <linux/futex.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <exception>
#include <new>
#include <random>

#include "sim.h"

using u8 = uint8_t;
using u16 = uint16_t;
using u32 = uint32_t;
using u64 = uint64_t;
using u128 = unsigned __int128;
using uptr = uintptr_t;

#define EXPORT extern "C" __attribute__((visibility("default")))
#define PC ((uptr)__builtin_return_address(0))
#define likely(x) __builtin_expect(!!(x), 1)
#define unlikely(x) __builtin_expect(!!(x), 0)

extern "C" char __libc_single_threaded;

// ------------------------------------------------------------------------------------------------ constants

static constexpr int MAXT = 32;
static constexpr uptr A0 = 0x200000000000ull;  // heap of the simulated program
static constexpr uptr ASZ = 512ull << 20;
static constexpr uptr S0 = 0x200040000000ull;  // fiber stacks, then TLS blocks
static constexpr uptr STK = 2 << 20;
static constexpr uptr TLS0 = S0 + MAXT * STK;
static constexpr uptr TLSSZ = 64 << 10;
static constexpr uptr SSZ = MAXT * STK + MAXT * TLSSZ;
static constexpr uptr DMAX = 4 << 20;          // writable data of the scenario library
static constexpr int H = 6;                    // stores remembered per atomic location

// ------------------------------------------------------------------------------------------------ small utils

struct Rng { // splitmix64
  u64 s = 0;
  u64 next() {
    u64 z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  u32 below(u32 n) { return n <= 1 ? 0 : (u32)(((next() >> 32) * (u64)n) >> 32); }
  bool chance(u32 den) { return den != 0 && below(den) == 0; }
};

static u64 mix(u64 a, u64 b) {
  a ^= b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2);
  a *= 0xff51afd7ed558ccdull;
  a ^= a >> 32;
  return a;
}

template <class T>
struct Vec { // uses libc malloc only, never operator new
  T *p = nullptr;
  size_t n = 0, cap = 0;
  void push(T const &v) {
    if (n == cap) {
      cap = cap ? cap * 2 : 64;
      p = (T *)realloc((void *)p, cap * sizeof(T));
    }
    p[n++] = v;
  }
  void clear() { n = 0; }
  T &operator[](size_t i) { return p[i]; }
  T *begin() { return p; }
  T *end() { return p + n; }
};

struct VC {
  u32 c[MAXT];
};

// ------------------------------------------------------------------------------------------------ state

enum Kind { K_SCHED, K_READ, K_FAULT, K_NKIND };
struct Dev {
  u64 ord;
  u32 val;
};

enum TState : u8 { T_UNUSED, T_RUN, T_FUTEX, T_JOIN, T_MUTEX, T_COND, T_SLEEP, T_QUIESCE, T_GUARD, T_DONE };

struct Thread {
  void *sp = nullptr;
  int id = 0;
  TState st = T_UNUSED;
  void *(*fn)(void *) = nullptr;
  void *arg = nullptr;
  void *ret = nullptr;
  bool detached = false, joined = false;
  uptr wait_addr = 0;
  u32 wait_bits = ~0u;
  u64 wait_seq = 0;
  u64 deadline = 0; // ns, 0 none
  bool timed_out = false;
  int quiet = 0;
  VC hb, cv, acq_hb, acq_cv, rel_hb, rel_cv;
  void *eh[2] = {nullptr, nullptr};
  u32 prio = 0;
  u64 stall_until = 0;
  u64 ops = 0; // scheduling points executed
  bool tls_ready = false;
  u32 af_den = 0;
  struct {
    void (*f)(void *);
    void *o;
  } dtors[16];
  int ndtors = 0;
};

struct Cell {
  u32 clk;
  u8 tid, mask, fl, pad; // fl: 1 write, 2 atomic, 4 free
  u32 pc;                // relative to the scenario library
};
struct alignas(64) Gran {
  uptr g;
  u32 loc;
  u32 pad;
  Cell c[4];
};
struct Entry {
  u64 val;
  u32 clk;
  u8 tid; // 0xff: initial value
  u8 stale[MAXT];
  VC hb, cv;
  u32 seen[MAXT];
};
struct Loc {
  uptr addr;
  u32 next;
  u8 size;
  bool mixed;
  u16 n;     // valid entries
  u16 head;  // index of the newest
  u32 sc_ts; // ts of newest SC store
  u32 ts;    // ts of newest store
  Entry e[H];
};

struct Named {
  const char *name;
  u64 total, runs, last_run;
  int64_t val;
};

struct Cfg {
  bool weak = false;
  int reuse = 0; // heap: 0 never reuse freed memory, 1 LIFO reuse
  int strat = 0;
  u32 p_log = 3;
  u32 stale_den = 0;
  u32 stall_den = 0;
  u32 spur_den = 0;  // spurious futex wake-ups
  u32 cas_den = 0;   // weak CAS failures
  u32 fault_scale = 1; // 0: no sim_fault() faults in this run
};

static struct {
  bool active = false; // a simulated run is in progress and we are on a fiber
  bool replay = false;
  bool trace = false;
  bool fair = false;
  u64 seed = 0;
  u64 run_no = 0;
  Cfg cfg;
  Rng r_work, r_sched, r_read, r_fault, r_ent, r_fair;
  u64 steps = 0, sim_ns_extra = 0, switches = 0, preempt = 0;
  u64 fair_after = 300000, fair_budget = 3000000;
  u64 fair_base_after = 300000, fair_base_budget = 3000000;
  u64 hash = 0, shash = 0;
  u32 runnable = 0;
  int nt = 0;
  Thread *cur = nullptr;
  u64 wseq = 0;
  bool nontrivial = false;
  bool leakcheck = true;
  u64 ord[K_NKIND] = {0, 0, 0};
  size_t cursor[K_NKIND] = {0, 0, 0};
  u32 since_switch = 0;
  u64 quantum = 0;
  u64 pct_points[16];
  int npct = 0;
  u32 pct_low = 0;
  // heap
  uptr brk = A0;
  u64 live_blocks = 0, live_bytes = 0, nalloc = 0;
  u32 af_den_all = 0;
  u64 af_den_min = 0;
  int64_t af_nth = -1;
  u64 af_min = 0;
  int64_t af_count = 0;
  u32 bind_den = 0, spawn_den = 0, hwloc_den = 0;
  u64 hwloc_fails = 0;
  u64 spawns = 0, spawn_nalloc = 0, af_after_spawn = 0;
  u32 af_after_den = 0;
  u64 binds = 0, futex_sleeps = 0;
  unsigned hw_threads = 4;
  VC S_cv; // SC order view
  VC other_hb;
  u32 nloc = 1, ngran = 1;
  char desc[4096];
  size_t ndesc = 0;
} S;

static Thread T[MAXT];
static Vec<Dev> dev[K_NKIND];      // recorded (seeded mode) or to be followed (replay mode)
static Vec<Dev> rec[K_NKIND];      // replay mode: what was actually done (== dev normally)
static Vec<u32> work;              // workload choices made
static Vec<u32> work_in;           // replay: choices to follow
static Named probes[256], faults[64], counters[256];
static int nprobes, nfaults, ncounters;

static void *host_sp;
static void *host_eh[2];
static void **eh_globals;

static u32 *gidx;   // granule -> record
static Gran *grans;
static Loc *locs;
static u8 *ashadow; // per heap granule: 0 unallocated, 1..8 addressable bytes, 0xFD freed
static constexpr u32 MAXGRAN = 16 << 20, MAXLOC = 2 << 20;

static uptr D0, D1; // writable data of the scenario library
static u8 *dcopy;
static size_t so_tls_mod = 0, so_tls_size = 0, so_tls_align = 1;
static const void *so_tls_img;
static size_t so_tls_filesz;
static uptr so_base;
static char so_path[1024];

static const char *g_scn_name = "?";
static const char *g_lib = "?";
static const char *g_replay_out = nullptr; // where a violation's replay file goes
static int g_result_fd = 1;
static u64 g_cfg_mask_weak = 2; // 0 never, 1 always, 2 mixed

// ------------------------------------------------------------------------------------------------ output

static void wr(int fd, const char *fmt, ...) {
  char buf[8192];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (n > (int)sizeof buf - 1) n = sizeof buf - 1;
  const char *p = buf;
  while (n > 0) {
    ssize_t k = write(fd, p, n);
    if (k <= 0) break;
    p += k;
    n -= k;
  }
}

static void write_replay(const char *path, const char *cls, const char *msg) {
  int fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd < 0) return;
  wr(fd, "lib %s\nscenario %s\nseed %llu\nclass %s\nweak %d\nreuse %d\nscale %u\n", g_lib, g_scn_name,
     (unsigned long long)S.seed, cls, (int)S.cfg.weak, S.cfg.reuse, S.cfg.fault_scale);
  wr(fd, "hash %016llx\nsteps %llu\n", (unsigned long long)S.hash, (unsigned long long)S.steps);
  char m[1024];
  snprintf(m, sizeof m, "%s", msg);
  for (char *p = m; *p; ++p)
    if (*p == '\n') *p = ' ';
  wr(fd, "message %s\n", m);
  wr(fd, "work");
  for (auto v : work) wr(fd, " %u", v);
  static const char *nm[] = {"sched", "read", "fault"};
  for (int k = 0; k < K_NKIND; ++k) {
    wr(fd, "\n%s", nm[k]);
    Vec<Dev> &d = S.replay ? rec[k] : dev[k];
    for (auto &x : d) wr(fd, " %llu:%u", (unsigned long long)x.ord, x.val);
  }
  wr(fd, "\nend\n");
  for (size_t i = 0; i < S.ndesc;) { // the workload, as comments
    const char *nl = (const char *)memchr(S.desc + i, '\n', S.ndesc - i);
    size_t e = nl ? (size_t)(nl - S.desc) : S.ndesc;
    wr(fd, "# %.*s\n", (int)(e - i), S.desc + i);
    i = e + 1;
  }
  close(fd);
}

static void json_str(char *out, size_t cap, const char *in) {
  size_t o = 0;
  for (; *in && o + 8 < cap; ++in) {
    unsigned char ch = *in;
    if (ch == '"' || ch == '\\') {
      out[o++] = '\\';
      out[o++] = ch;
    } else if (ch < 32) {
      o += snprintf(out + o, cap - o, "\\u%04x", ch);
    } else
      out[o++] = ch;
  }
  out[o] = 0;
}

static void stats_json(int fd);
static bool in_report = false;

static const char *tstate_name(int s) {
  static const char *n[] = {"unused", "runnable", "futex", "join", "mutex", "cond", "sleep", "quiesce", "guard", "done"};
  return n[s];
}

[[noreturn]] static void report(const char *cls, const char *msg) {
  if (in_report) _exit(4);
  in_report = true;
  bool act = S.active;
  S.active = false;
  char j[3000];
  json_str(j, sizeof j, msg);
  if (g_replay_out) write_replay(g_replay_out, cls, msg);
  wr(g_result_fd,
     "{\"type\":\"violation\",\"class\":\"%s\",\"message\":\"%s\",\"seed\":%llu,\"scenario\":\"%s\",\"steps\":%llu,"
     "\"hash\":\"%016llx\",\"weak\":%d,\"in_run\":%d,\"tid\":%d,\"base\":\"%llx\"}\n",
     cls, j, (unsigned long long)S.seed, g_scn_name, (unsigned long long)S.steps, (unsigned long long)S.hash,
     (int)S.cfg.weak, (int)act, S.cur ? S.cur->id : -1, (unsigned long long)so_base);
  if (S.trace) {
    for (int i = 0; i < S.nt; ++i)
      wr(2, "  thread %d: %s addr=%lx ops=%llu\n", i, tstate_name(T[i].st), (unsigned long)T[i].wait_addr,
         (unsigned long long)T[i].ops);
  }
  stats_json(g_result_fd);
  _exit(3);
}

[[noreturn]] static void reportf(const char *cls, const char *fmt, ...) {
  char b[2048];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  report(cls, b);
}

static int format_pc(char *o, size_t n, uptr pc) {
  return snprintf(o, n, "@%llx@", (unsigned long long)(pc - so_base)); // symbolised by the driver
}

[[noreturn]] static void internal_error(const char *fmt, ...) {
  char b[1024];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  wr(g_result_fd, "{\"type\":\"internal\",\"message\":\"%s\",\"seed\":%llu}\n", b, (unsigned long long)S.seed);
  _exit(2);
}

static Named *named(Named *tab, int &n, int cap, const char *name) {
  for (int i = 0; i < n; ++i)
    if (tab[i].name == name || strcmp(tab[i].name, name) == 0) return &tab[i];
  if (n == cap) internal_error("too many named counters");
  tab[n] = Named{strdup(name), 0, 0, ~0ull, 0};
  return &tab[n++];
}
static void bump(Named *x, u64 by = 1) {
  x->total += by;
  if (x->last_run != S.run_no) {
    x->last_run = S.run_no;
    x->runs++;
  }
}
static void fault_hit(const char *k) { bump(named(faults, nfaults, 64, k)); }

// ------------------------------------------------------------------------------------------------ fibers

extern "C" void sim_swap(void **save, void *to);
asm(R"(
.text
.globl sim_swap
.type sim_swap,@function
sim_swap:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_swap,.-sim_swap
)");

static void fiber_entry() noexcept;

static void switch_to(Thread *to) {
  Thread *from = S.cur;
  if (from == to) return;
  from->eh[0] = eh_globals[0];
  from->eh[1] = eh_globals[1];
  S.cur = to;
  eh_globals[0] = to->eh[0];
  eh_globals[1] = to->eh[1];
  S.switches++;
  S.since_switch = 0;
  S.shash = mix(S.shash, (u64)from->id << 40 ^ (u64)to->id << 32 ^ from->ops);
  sim_swap(&from->sp, to->sp);
}

static void fiber_enter_from_host(Thread *to) {
  host_eh[0] = eh_globals[0];
  host_eh[1] = eh_globals[1];
  eh_globals[0] = eh_globals[1] = nullptr;
  S.cur = to;
  S.active = true;
  sim_swap(&host_sp, to->sp);
}

static int run_outcome; // 0 ok, 1 inconclusive
static const char *run_why;

[[noreturn]] static void leave_to_host() {
  S.active = false;
  eh_globals[0] = host_eh[0];
  eh_globals[1] = host_eh[1];
  void *dummy;
  sim_swap(&dummy, host_sp);
  __builtin_trap();
}

static void vc_join(VC &a, VC const &b) {
  for (int i = 0, n = S.nt; i < n; ++i)
    if (b.c[i] > a.c[i]) a.c[i] = b.c[i];
}
static void vc_zero(VC &a) { memset(&a, 0, sizeof a); }

static Thread *new_thread(void *(*fn)(void *), void *arg) {
  if (S.nt == MAXT) {
    run_outcome = 1;
    run_why = "too many threads";
    leave_to_host();
  }
  Thread *t = &T[S.nt];
  *t = Thread{};
  t->id = S.nt++;
  t->fn = fn;
  t->arg = arg;
  t->st = T_RUN;
  vc_zero(t->hb), vc_zero(t->cv), vc_zero(t->acq_hb), vc_zero(t->acq_cv), vc_zero(t->rel_hb), vc_zero(t->rel_cv);
  uptr top = S0 + (uptr)(t->id + 1) * STK;
  memset((void *)(top - (64 << 10)), 0, 64 << 10);
  void **sp = (void **)top;
  *--sp = nullptr;             // fake return address (and stack alignment)
  *--sp = (void *)fiber_entry; // ret target
  for (int i = 0; i < 6; ++i) *--sp = nullptr;
  t->sp = sp;
  t->prio = 1000 + S.r_sched.below(1000000);
  S.runnable |= 1u << t->id;
  if (S.cur) {
    Thread *c = S.cur;
    t->hb = c->hb;
    t->cv = c->cv;
    c->hb.c[c->id]++;
    c->cv.c[c->id] = c->hb.c[c->id];
  }
  t->hb.c[t->id] = 1;
  t->cv.c[t->id] = 1;
  return t;
}

// ------------------------------------------------------------------------------------------------ scheduler

static u64 now_ns() { return S.steps * 50 + S.sim_ns_extra; }

static inline int nth_bit(u32 m, u32 n) {
  while (n--) m &= m - 1;
  return __builtin_ctz(m);
}

static int rr_next(u32 mask, int cur) {
  u32 hi = mask & ~((2u << cur) - 1);
  if (cur == 31) hi = 0;
  return hi ? __builtin_ctz(hi) : __builtin_ctz(mask);
}

static bool follow(Kind k, u64 ord, u32 &val) {
  Vec<Dev> &d = dev[k];
  size_t &c = S.cursor[k];
  while (c < d.n && d[c].ord < ord) ++c;
  if (c < d.n && d[c].ord == ord) {
    val = d[c].val;
    return true;
  }
  return false;
}

static void deadlock() {
  char b[1500];
  size_t n = snprintf(b, sizeof b, "no simulated thread can make progress (lost wake-up or missing signal):");
  for (int i = 0; i < S.nt && n < sizeof b - 60; ++i)
    if (T[i].st != T_DONE && T[i].st != T_UNUSED) n += snprintf(b + n, sizeof b - n, " t%d=%s", i, tstate_name(T[i].st));
  report("stuck", b);
}

static void wake(Thread *t) {
  t->st = T_RUN;
  t->deadline = 0;
  S.runnable |= 1u << t->id;
}

// called when nothing is runnable
static void idle() {
  for (int i = 0; i < S.nt; ++i)
    if (T[i].st == T_QUIESCE) {
      T[i].quiet = 1;
      wake(&T[i]);
      return;
    }
  Thread *best = nullptr;
  for (int i = 0; i < S.nt; ++i)
    if (T[i].st != T_DONE && T[i].deadline && (!best || T[i].deadline < best->deadline)) best = &T[i];
  if (!best) deadlock();
  u64 now = now_ns();
  if (best->deadline > now) S.sim_ns_extra += best->deadline - now;
  best->timed_out = true;
  wake(best);
}

static void check_timers() {
  u64 now = now_ns();
  for (int i = 0; i < S.nt; ++i) {
    if (T[i].deadline && T[i].st != T_RUN && T[i].st != T_DONE && T[i].deadline <= now) {
      T[i].timed_out = true;
      wake(&T[i]);
    }
    if (T[i].st == T_QUIESCE && S.steps >= T[i].wait_seq) {
      T[i].quiet = 0;
      wake(&T[i]);
    }
  }
}

static void budget_check() {
  if (!S.fair && S.steps >= S.fair_after) {
    S.fair = true;
    S.quantum = 0;
  }
  if (S.fair && S.steps >= S.fair_after + S.fair_budget) {
    char b[1500];
    size_t n = snprintf(b, sizeof b, "no completion within %llu fair, fault-free steps:",
                        (unsigned long long)S.fair_budget);
    for (int i = 0; i < S.nt && n < sizeof b - 60; ++i)
      if (T[i].st != T_DONE) n += snprintf(b + n, sizeof b - n, " t%d=%s", i, tstate_name(T[i].st));
    report("stuck", b);
  }
}

// how: 0 ordinary point, 1 yield, 2 current thread cannot continue
static int seeded_choice(u32 mask, int cur, int how, uptr addr, int dflt);
static bool conflict_hint(uptr addr, int cur);

static int choose_next(int how, uptr addr) {
  u32 mask = S.runnable;
  int cur = S.cur->id;
  if ((mask & (mask - 1)) == 0) return __builtin_ctz(mask);
  if (unlikely(S.fair)) {
    if (how || S.quantum == 0) {
      u32 others = mask & ~(1u << cur);
      S.quantum = 1 + S.r_fair.below(200);
      if (!others) return cur;
      return nth_bit(others, S.r_fair.below(__builtin_popcount(others)));
    }
    --S.quantum;
    return cur;
  }
  u64 o = S.ord[K_SCHED]++;
  int d;
  if (how == 0 && S.since_switch < 512)
    d = cur;
  else
    d = rr_next(mask, cur);
  int r;
  if (S.replay) {
    u32 v;
    r = d;
    if (follow(K_SCHED, o, v) && v < 32 && (mask >> v & 1)) r = (int)v;
    if (r != d) rec[K_SCHED].push({o, (u32)r});
  } else {
    r = seeded_choice(mask, cur, how, addr, d);
    if (r != d) dev[K_SCHED].push({o, (u32)r});
  }
  return r;
}

static int seeded_choice(u32 mask, int cur, int how, uptr addr, int) {
  Rng &R = S.r_sched;
  // stalled threads are skipped while somebody else can run
  if (S.cfg.stall_den) {
    if (R.chance(S.cfg.stall_den)) {
      int v = nth_bit(mask, R.below(__builtin_popcount(mask)));
      u32 sh = 5 + R.below(9);
      T[v].stall_until = S.steps + (1ull << sh);
      fault_hit("thread_stall");
    }
    u32 m2 = mask;
    for (u32 m = mask; m; m &= m - 1) {
      int i = __builtin_ctz(m);
      if (T[i].stall_until > S.steps) m2 &= ~(1u << i);
    }
    if (m2) mask = m2;
    if (!(mask >> cur & 1)) how = 2;
  }
  if ((mask & (mask - 1)) == 0) return __builtin_ctz(mask);
  u32 others = mask & ~(1u << cur);
  int no = __builtin_popcount(others);
  auto any_other = [&] { return nth_bit(others, R.below(no)); };
  switch (S.cfg.strat) {
    default:
    case 0: // random walk
      if (how == 2) return any_other();
      if (how == 1) return (R.next() & 3) ? any_other() : cur;
      if ((R.next() >> 20 & ((1u << S.cfg.p_log) - 1)) == 0) return any_other();
      return cur;
    case 1: // random quanta
      if (how || S.quantum == 0) {
        S.quantum = 1ull << R.below(S.cfg.p_log + 4);
        S.quantum += R.below((u32)S.quantum);
        return any_other();
      }
      --S.quantum;
      return cur;
    case 2: { // PCT
      for (int i = 0; i < S.npct; ++i)
        if (S.pct_points[i] <= S.steps) {
          S.pct_points[i] = S.pct_points[--S.npct];
          T[cur].prio = S.pct_low--;
          break;
        }
      if (how == 1 || S.since_switch > 3000) T[cur].prio = S.pct_low--;
      if (S.pct_low == 0) {
        S.pct_low = 900;
        for (int i = 0; i < S.nt; ++i) T[i].prio = 1000 + R.below(1000000);
      }
      int best = -1;
      for (u32 m = mask; m; m &= m - 1) {
        int i = __builtin_ctz(m);
        if (best < 0 || T[i].prio > T[best].prio) best = i;
      }
      return best;
    }
    case 3: // prefer to switch right before an access somebody else touched
      if (how == 2) return any_other();
      if (how == 1) return (R.next() & 3) ? any_other() : cur;
      if (conflict_hint(addr, cur) ? (R.next() & 1) == 0 : (R.next() & 127) == 0) return any_other();
      return cur;
  }
}

static void go(int next) {
  if (T[next].st != T_RUN) internal_error("scheduled a blocked thread");
  switch_to(&T[next]);
}

static inline void point(uptr addr, int how = 0) {
  Thread *t = S.cur;
  S.steps++;
  t->ops++;
  S.since_switch++;
  if (unlikely((S.steps & 63) == 0)) {
    check_timers();
    budget_check();
  }
  u32 m = S.runnable;
  if ((m & (m - 1)) == 0) return;
  int n = choose_next(how, addr);
  if (n != t->id) {
    S.preempt++;
    go(n);
  }
}

// the current thread has set its own state to blocked
static void block() {
  Thread *t = S.cur;
  S.runnable &= ~(1u << t->id);
  S.steps++;
  budget_check();
  while (S.runnable == 0) idle();
  int n = choose_next(2, 0);
  if (n != t->id) go(n);
}

static void fiber_entry() noexcept {
  Thread *t = S.cur;
  t->ret = t->fn(t->arg);
  t = S.cur;
  while (t->ndtors) {
    auto d = t->dtors[--t->ndtors];
    d.f(d.o);
  }
  point(0);
  t->st = T_DONE;
  S.hash = mix(S.hash, 0x1000 + t->id);
  if (t->id == 0) leave_to_host();
  for (int i = 0; i < S.nt; ++i)
    if (T[i].st == T_JOIN && T[i].wait_addr == (uptr)t->id) wake(&T[i]);
  block();
  internal_error("finished thread resumed");
}

// ------------------------------------------------------------------------------------------------ fault choices

static bool fault_choice(const char *kind, u32 den) {
  if (S.fair || den == 0) return false;
  u64 o = S.ord[K_FAULT]++;
  bool f = false;
  if (S.replay) {
    u32 v;
    f = follow(K_FAULT, o, v) && v;
    if (f) rec[K_FAULT].push({o, 1});
  } else {
    f = S.cfg.fault_scale && S.r_fault.chance(den);
    if (f) dev[K_FAULT].push({o, 1});
  }
  if (f) {
    fault_hit(kind);
    S.hash = mix(S.hash, 0xfa017);
  }
  return f;
}

// ------------------------------------------------------------------------------------------------ shadow memory

static inline bool in_arena(uptr a) { return a - A0 < ASZ; }
static inline bool in_stacks(uptr a) { return a - S0 < SSZ; }
static inline bool in_data(uptr a) { return a - D0 < D1 - D0; }

static inline u64 gslot(uptr a) { // caller checked the region
  if (in_arena(a)) return (a - A0) >> 3;
  if (in_stacks(a)) return (ASZ + (a - S0)) >> 3;
  return (ASZ + SSZ + (a - (D0 & ~7ull))) >> 3;
}
static inline bool tracked(uptr a) { return in_arena(a) || in_stacks(a) || in_data(a); }

static Gran *gran_find(uptr a) {
  u32 i = gidx[gslot(a)];
  if (i && i < S.ngran && grans[i].g == (a & ~7ull)) return &grans[i];
  return nullptr;
}
static Gran *gran_get(uptr a) {
  u64 s = gslot(a);
  u32 i = gidx[s];
  if (likely(i && i < S.ngran && grans[i].g == (a & ~7ull))) return &grans[i];
  if (S.ngran == MAXGRAN) {
    run_outcome = 1;
    run_why = "shadow exhausted";
    leave_to_host();
  }
  i = S.ngran++;
  gidx[s] = i;
  Gran *g = &grans[i];
  memset((void *)g, 0, sizeof *g);
  g->g = a & ~7ull;
  return g;
}

static bool conflict_hint(uptr a, int cur) {
  if (!a || !tracked(a)) return false;
  Gran *g = gran_find(a);
  if (!g) return false;
  for (auto &c : g->c)
    if (c.clk && c.tid != cur) return true;
  return false;
}

static void addr_desc(char *b, size_t n, uptr a);

[[noreturn]] static void race(uptr a, int size, bool w, bool at, uptr pc, Cell const &o) {
  char b[900], p1[64], p2[64], ad[200];
  format_pc(p1, sizeof p1, pc);
  format_pc(p2, sizeof p2, so_base + o.pc);
  addr_desc(ad, sizeof ad, a);
  snprintf(b, sizeof b, "data race on %s: t%d %s%s of %d bytes at %s is unordered with t%d %s%s at %s", ad, S.cur->id,
           at ? "atomic " : "", w ? "write" : "read", size, p1, o.tid, o.fl & 2 ? "atomic " : "",
           o.fl & 4 ? "free" : (o.fl & 1 ? "write" : "read"), p2);
  report("race", b);
}

[[noreturn]] static void bad_mem(uptr a, int size, bool w, uptr pc) {
  char b[600], p1[64], ad[200];
  format_pc(p1, sizeof p1, pc);
  addr_desc(ad, sizeof ad, a);
  snprintf(b, sizeof b, "%s of %d bytes outside live memory (%s) at %s by t%d", w ? "write" : "read", size, ad, p1,
           S.cur->id);
  report("memory", b);
}

static inline void cell_access(Gran *g, u8 mask, u8 fl, uptr a, int size, uptr pc) {
  Thread *t = S.cur;
  u8 me = (u8)t->id;
  Cell &c0 = g->c[0];
  if (likely(c0.tid == me && c0.mask == mask && c0.fl == fl && c0.clk && g->c[1].clk == 0)) {
    c0.clk = t->hb.c[me]; // sole accessor so far (cells fill in order)
    c0.pc = (u32)(pc - so_base);
    return;
  }
  int slot = -1, empty = -1;
  for (int i = 0; i < 4; ++i) {
    Cell &c = g->c[i];
    if (c.clk == 0) {
      if (empty < 0) empty = i;
      continue;
    }
    if (c.tid == me) {
      if (slot < 0 && (c.mask & ~mask) == 0 && ((c.fl & 1) <= (fl & 1)) && ((c.fl & 2) >= (fl & 2))) slot = i;
      continue;
    }
    if ((c.mask & mask) && ((c.fl | fl) & 1) && !((c.fl & 2) && (fl & 2)) && t->hb.c[c.tid] < c.clk)
      race(a, size, fl & 1, fl & 2, pc, c);
  }
  if (slot < 0) slot = empty;
  if (slot < 0) { // evict something already ordered before us if possible
    for (int i = 0; i < 4 && slot < 0; ++i)
      if (g->c[i].tid == me || t->hb.c[g->c[i].tid] >= g->c[i].clk) slot = i;
    if (slot < 0) slot = (int)((t->hb.c[me] + (a >> 3)) & 3);
  }
  g->c[slot] = Cell{t->hb.c[me], me, mask, fl, 0, (u32)(pc - so_base)};
}

static inline void check_heap(uptr a, int size, bool w, uptr pc) {
  if (in_arena(a)) {
    u8 s = ashadow[(a - A0) >> 3];
    if (unlikely(s == 0 || s > 8 || (int)(a & 7) + std::min(size, (int)(8 - (a & 7))) > s)) bad_mem(a, size, w, pc);
  } else if (in_stacks(a) && a < TLS0) {
    // every fiber stack is always addressable; the bottom page of each is a guard page
  }
}

static void drop_locs(Gran *g, uptr a, int size) {
  u32 *link = &g->loc;
  while (*link) {
    Loc &l = locs[*link];
    if (a < l.addr + l.size && l.addr < a + (uptr)size) {
      l.n = 0; // re-initialised from memory by the next atomic access
      *link = l.next;
    } else
      link = &l.next;
  }
}

static inline void plain(uptr a, int size, bool w, uptr pc) {
  if (unlikely(!S.active)) return;
  while (size > 0) {
    if (unlikely(!tracked(a))) {
      if (unlikely(a < 4096)) bad_mem(a, size, w, pc);
      return;
    }
    int off = (int)(a & 7);
    int k = std::min(size, 8 - off);
    check_heap(a, k, w, pc);
    Gran *g = gran_get(a);
    cell_access(g, (u8)(((1u << k) - 1) << off), w ? 1 : 0, a, k, pc);
    if (unlikely(g->loc) && w) drop_locs(g, a, k);
    a += k;
    size -= k;
  }
}

// ------------------------------------------------------------------------------------------------ heap

struct Blk {
  u64 magic;
  u32 size_hi, size_lo;
};
static constexpr u64 MAGIC = 0x51b10c51b10c51b1ull, FREED = 0xdeadf4eedeadf4eeull;

struct FreeNode {
  uptr next;
};
static uptr freelist[64];
static inline int szclass(size_t n) { return n <= 16 ? 0 : 64 - __builtin_clzll(n - 1) - 4; }

static void addr_desc(char *b, size_t n, uptr a) {
  if (in_arena(a)) {
    // walk back to the block header
    for (uptr p = a & ~15ull; p >= A0 && a - p < (64 << 20); p -= 16) {
      Blk *k = (Blk *)p;
      if (k->magic == MAGIC || k->magic == FREED) {
        u64 sz = (u64)k->size_hi << 32 | k->size_lo;
        snprintf(b, n, "heap+0x%lx, %ld bytes into a %llu byte %s block", (unsigned long)(a - A0), (long)(a - p - 16),
                 (unsigned long long)sz, k->magic == MAGIC ? "live" : "freed");
        return;
      }
    }
    snprintf(b, n, "heap+0x%lx", (unsigned long)(a - A0));
  } else if (in_stacks(a) && a >= TLS0)
    snprintf(b, n, "thread-local storage of t%d", (int)((a - TLS0) / TLSSZ));
  else if (in_stacks(a))
    snprintf(b, n, "stack of t%d", (int)((a - S0) / STK));
  else if (in_data(a))
    snprintf(b, n, "static data+0x%lx", (unsigned long)(a - so_base));
  else
    snprintf(b, n, "address 0x%lx", (unsigned long)a);
}

static void forget_range(uptr a, size_t n) {
  for (uptr p = a & ~7ull; p < a + n; p += 8) {
    u32 i = gidx[gslot(p)];
    if (i && i < S.ngran && grans[i].g == p) {
      Gran &g = grans[i];
      g.loc = 0;
      memset(g.c, 0, sizeof g.c);
    }
  }
}

static bool alloc_should_fail(size_t n) {
  S.nalloc++;
  bool f = false;
  if (S.af_nth >= 0 && n >= S.af_min) {
    if (S.af_nth-- == 0) {
      f = true;
      fault_hit("alloc_fail");
    }
  }
  u32 den = S.cur->af_den ? S.cur->af_den : S.af_den_all;
  if (!f && den && n >= S.af_den_min) f = fault_choice("alloc_fail", den);
  if (f) S.af_count++;
  return f;
}

static void *heap_alloc(size_t n, size_t align) {
  if (align < 16) align = 16;
  int c = szclass(n);
  uptr p = 0;
  if (S.cfg.reuse == 1 && align == 16 && c < 40 && freelist[c]) {
    p = freelist[c];
    freelist[c] = ((FreeNode *)p)->next;
  } else {
    size_t cap = std::max<size_t>(n, 1);
    if (S.cfg.reuse == 1 && c < 40) cap = (size_t)16 << c; // class capacity
    p = (S.brk + 32 + align - 1) & ~(uptr)(align - 1);
    uptr e = p + ((cap + 7) & ~7ull) + 32;
    if (cap > ASZ || e >= A0 + ASZ) {
      run_outcome = 1;
      run_why = "heap exhausted";
      leave_to_host();
    }
    S.brk = e;
  }
  Blk *b = (Blk *)(p - 16);
  b->magic = MAGIC;
  b->size_hi = (u32)(n >> 32);
  b->size_lo = (u32)n;
  size_t full = n / 8, rest = n % 8;
  memset(ashadow + ((p - A0) >> 3), 8, full);
  if (rest) ashadow[((p - A0) >> 3) + full] = (u8)rest;
  forget_range(p, std::max<size_t>(n, 1));
  memset((void *)p, 0xA5, n);
  S.live_blocks++;
  S.live_bytes += n;
  S.hash = mix(S.hash, p - A0);
  return (void *)p;
}

static void heap_free(void *q, uptr pc, const char *how) {
  uptr p = (uptr)q;
  Blk *b = (Blk *)(p - 16);
  char p1[64];
  format_pc(p1, sizeof p1, pc);
  if ((p & 15) || b->magic != MAGIC) {
    char ad[200];
    addr_desc(ad, sizeof ad, p);
    reportf("memory", "%s of a pointer that is not a live block (%s) by t%d at %s", how, ad, S.cur ? S.cur->id : -1, p1);
  }
  size_t n = (size_t)b->size_hi << 32 | b->size_lo;
  // A free conflicts with every unordered access.
  for (uptr a = p; a < p + n; a += 8) {
    u32 i = gidx[gslot(a)];
    if (i && i < S.ngran && grans[i].g == a) {
      Gran &g = grans[i];
      for (auto &c : g.c)
        if (c.clk && c.tid != S.cur->id && S.cur->hb.c[c.tid] < c.clk) {
          char p2[64], ad[200];
          format_pc(p2, sizeof p2, so_base + c.pc);
          addr_desc(ad, sizeof ad, a);
          reportf("race", "%s of memory (%s) by t%d at %s is unordered with t%d %s%s at %s", how, ad, S.cur->id, p1,
                  c.tid, c.fl & 2 ? "atomic " : "", c.fl & 1 ? "write" : "read", p2);
        }
    }
  }
  b->magic = FREED;
  memset(ashadow + ((p - A0) >> 3), 0xFD, (n + 7) / 8);
  memset((void *)p, 0xDD, n);
  S.live_blocks--;
  S.live_bytes -= n;
  S.hash = mix(S.hash, ~(p - A0));
  int c = szclass(n);
  if (S.cfg.reuse == 1 && c < 40) {
    // only blocks that were carved with the class capacity (alignment 16)
    ((FreeNode *)p)->next = freelist[c];
    freelist[c] = p;
  }
}

EXPORT void *__wrap_malloc(size_t n) {
  if (!S.active) return malloc(n);
  point(0);
  if (alloc_should_fail(n)) {
    errno = ENOMEM;
    return nullptr;
  }
  return heap_alloc(n, 16);
}
EXPORT void __wrap_free(void *p) {
  if (!p) return;
  if (!in_arena((uptr)p)) return free(p);
  if (!S.active) return;
  heap_free(p, PC, "free");
}
EXPORT void *__wrap_calloc(size_t a, size_t b) {
  if (!S.active) return calloc(a, b);
  void *p = __wrap_malloc(a * b);
  if (p) memset(p, 0, a * b);
  return p;
}
EXPORT void *__wrap_aligned_alloc(size_t al, size_t n) {
  if (!S.active) return aligned_alloc(al, n);
  point(0);
  if (alloc_should_fail(n)) return nullptr;
  return heap_alloc(n, std::max<size_t>(al, 16));
}
EXPORT int __wrap_posix_memalign(void **o, size_t al, size_t n) {
  void *p = __wrap_aligned_alloc(al, n);
  if (!p) return ENOMEM;
  *o = p;
  return 0;
}
EXPORT void *__wrap_realloc(void *p, size_t n) {
  if (!S.active || (p && !in_arena((uptr)p))) return realloc(p, n);
  void *q = __wrap_malloc(n);
  if (q && p) {
    Blk *b = (Blk *)((uptr)p - 16);
    size_t o = (size_t)b->size_hi << 32 | b->size_lo;
    memcpy(q, p, std::min(o, n));
    heap_free(p, PC, "realloc");
  }
  return q;
}

static void *op_new(size_t n, size_t al, bool nothrow) {
  if (!S.active) {
    void *p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
    if (!p && !nothrow) throw std::bad_alloc();
    return p;
  }
  point(0);
  if (alloc_should_fail(n)) {
    if (nothrow) return nullptr;
    throw std::bad_alloc();
  }
  return heap_alloc(n, al);
}
static void op_delete(void *p, uptr pc) {
  if (!p) return;
  if (!in_arena((uptr)p)) return free(p);
  if (!S.active) return;
  heap_free(p, pc, "delete");
}

#define NEWDEL(V) __attribute__((visibility("default"))) V
NEWDEL(void *) operator new(size_t n) { return op_new(n, 16, false); }
NEWDEL(void *) operator new[](size_t n) { return op_new(n, 16, false); }
NEWDEL(void *) operator new(size_t n, std::align_val_t a) { return op_new(n, (size_t)a, false); }
NEWDEL(void *) operator new[](size_t n, std::align_val_t a) { return op_new(n, (size_t)a, false); }
NEWDEL(void *) operator new(size_t n, std::nothrow_t const &) noexcept { return op_new(n, 16, true); }
NEWDEL(void *) operator new[](size_t n, std::nothrow_t const &) noexcept { return op_new(n, 16, true); }
NEWDEL(void *) operator new(size_t n, std::align_val_t a, std::nothrow_t const &) noexcept { return op_new(n, (size_t)a, true); }
NEWDEL(void *) operator new[](size_t n, std::align_val_t a, std::nothrow_t const &) noexcept { return op_new(n, (size_t)a, true); }
NEWDEL(void) operator delete(void *p) noexcept { op_delete(p, PC); }
NEWDEL(void) operator delete[](void *p) noexcept { op_delete(p, PC); }
NEWDEL(void) operator delete(void *p, size_t) noexcept { op_delete(p, PC); }
NEWDEL(void) operator delete[](void *p, size_t) noexcept { op_delete(p, PC); }
NEWDEL(void) operator delete(void *p, std::align_val_t) noexcept { op_delete(p, PC); }
NEWDEL(void) operator delete[](void *p, std::align_val_t) noexcept { op_delete(p, PC); }
NEWDEL(void) operator delete(void *p, size_t, std::align_val_t) noexcept { op_delete(p, PC); }
NEWDEL(void) operator delete[](void *p, size_t, std::align_val_t) noexcept { op_delete(p, PC); }
NEWDEL(void) operator delete(void *p, std::nothrow_t const &) noexcept { op_delete(p, PC); }
NEWDEL(void) operator delete[](void *p, std::nothrow_t const &) noexcept { op_delete(p, PC); }

// ------------------------------------------------------------------------------------------------ atomics

enum { MO_RLX = 0, MO_CONS = 1, MO_ACQ = 2, MO_REL = 3, MO_AR = 4, MO_SC = 5 };
static inline bool is_acq(int mo) { return mo == MO_CONS || mo == MO_ACQ || mo == MO_AR || mo == MO_SC; }
static inline bool is_rel(int mo) { return mo == MO_REL || mo == MO_AR || mo == MO_SC; }

static u64 raw_load(uptr a, int size) {
  switch (size) {
    case 1: return *(volatile u8 *)a;
    case 2: return *(volatile u16 *)a;
    case 4: return *(volatile u32 *)a;
    default: return *(volatile u64 *)a;
  }
}
static void raw_store(uptr a, int size, u64 v) {
  switch (size) {
    case 1: *(volatile u8 *)a = (u8)v; break;
    case 2: *(volatile u16 *)a = (u16)v; break;
    case 4: *(volatile u32 *)a = (u32)v; break;
    default: *(volatile u64 *)a = v; break;
  }
}
static inline u64 trunc(u64 v, int size) { return size == 8 ? v : v & ((1ull << (size * 8)) - 1); }

static void entry_clear(Entry &e) {
  e.clk = 0;
  e.tid = 0xff;
  memset(e.stale, 0, sizeof e.stale);
  vc_zero(e.hb);
  vc_zero(e.cv);
  memset(e.seen, 0, sizeof e.seen);
}

static Loc *loc_get(Gran *g, uptr a, int size) {
  bool overlap = false;
  for (u32 i = g->loc; i; i = locs[i].next) {
    Loc &l = locs[i];
    if (l.mixed || (l.addr == a && l.size == size)) return &l;
    if (a < l.addr + l.size && l.addr < a + (uptr)size) overlap = true;
  }
  if (S.nloc == MAXLOC) {
    run_outcome = 1;
    run_why = "too many atomic locations";
    leave_to_host();
  }
  u32 id = S.nloc++;
  Loc &l = locs[id];
  l.addr = a;
  l.size = (u8)size;
  l.mixed = overlap;
  l.n = 1;
  l.head = 0;
  l.ts = 0;
  l.sc_ts = 0;
  entry_clear(l.e[0]);
  l.e[0].val = raw_load(a, size);
  if (overlap) {
    // mixed-size atomics: the whole granule becomes one location without stale reads
    l.addr = g->g;
    l.size = 8;
    for (u32 i = g->loc; i; i = locs[i].next) {
      Entry &e = locs[i].e[locs[i].head];
      vc_join(l.e[0].hb, e.hb);
      vc_join(l.e[0].cv, e.cv);
    }
    l.next = 0;
    g->loc = id;
    return &l;
  }
  l.next = g->loc;
  g->loc = id;
  return &l;
}

static inline void tick(Thread *t) {
  u32 c = ++t->hb.c[t->id];
  t->cv.c[t->id] = c;
}

static void acquire_from(Thread *t, Entry const &e, int mo) {
  if (is_acq(mo)) {
    vc_join(t->hb, e.hb);
    vc_join(t->cv, e.cv);
  } else {
    vc_join(t->acq_hb, e.hb);
    vc_join(t->acq_cv, e.cv);
  }
}

static void trace_op(const char *op, uptr a, int size, u64 v, int mo, uptr pc, const char *extra = "") {
  char ad[200];
  addr_desc(ad, sizeof ad, a);
  wr(2, "%8llu t%d %-10s %s sz=%d val=%llx mo=%d pc=@%llx@ %s\n", (unsigned long long)S.steps, S.cur->id, op, ad, size,
     (unsigned long long)v, mo, (unsigned long long)(pc - so_base), extra);
}

static u64 atomic_load(uptr a, int size, int mo, uptr pc) {
  mo &= 7;
  if (!S.active) return raw_load(a, size);
  point(a);
  if (!tracked(a)) {
    vc_join(S.cur->hb, S.other_hb);
    vc_join(S.cur->cv, S.other_hb);
    if (a < 4096) bad_mem(a, size, false, pc);
    return raw_load(a, size);
  }
  check_heap(a, size, false, pc);
  Gran *g = gran_get(a);
  cell_access(g, (u8)(((1u << size) - 1) << (a & 7)), 2, a, size, pc);
  Loc *l = loc_get(g, a, size);
  Thread *t = S.cur;
  tick(t);
  Entry *e = &l->e[l->head];
  if (l->mixed) {
    acquire_from(t, *e, mo);
    u64 v = raw_load(a, size);
    S.hash = mix(S.hash, v ^ (u64)t->id << 56);
    if (unlikely(S.trace)) trace_op("load", a, size, v, mo, pc);
    return v;
  }
  if (S.cfg.weak && l->n > 1 && !in_data(a)) {
    // candidates: distance 0 (newest) .. k
    int maxd = 0;
    for (int d = 0; d < l->n; ++d) {
      Entry &x = l->e[(l->head + H - d) % H];
      maxd = d;
      bool bound = x.tid == 0xff || x.tid == t->id || t->cv.c[x.tid] >= x.clk;
      for (int u = 0; !bound && u < S.nt; ++u)
        if (x.seen[u] && t->cv.c[u] >= x.seen[u]) bound = true;
      if (mo == MO_SC && !bound) {
        if (S.S_cv.c[x.tid] >= x.clk) bound = true;
        if (l->sc_ts >= l->ts - (u32)d) bound = true;
        for (int u = 0; !bound && u < S.nt; ++u)
          if (x.seen[u] && S.S_cv.c[u] >= x.seen[u]) bound = true;
      }
      if (bound) break;
    }
    if (maxd > 0) {
      int d = 0;
      if (!S.fair) {
        u64 o = S.ord[K_READ]++;
        if (S.replay) {
          u32 v;
          if (follow(K_READ, o, v)) d = std::min((int)v, maxd);
        } else if (S.r_read.chance(S.cfg.stale_den))
          d = 1 + (int)S.r_read.below((u32)maxd);
        while (d > 0 && l->e[(l->head + H - d) % H].stale[t->id] >= 12) --d; // finite visibility
        if (d) {
          (S.replay ? rec : dev)[K_READ].push({o, (u32)d});
          fault_hit("stale_read");
        }
      }
      e = &l->e[(l->head + H - d) % H];
      if (d) e->stale[t->id]++;
    }
  }
  if (!e->seen[t->id]) e->seen[t->id] = t->cv.c[t->id];
  acquire_from(t, *e, mo);
  S.hash = mix(S.hash, e->val ^ (u64)t->id << 56);
  if (unlikely(S.trace)) trace_op("load", a, size, e->val, mo, pc, e == &l->e[l->head] ? "" : "(stale)");
  return e->val;
}

static void put(Loc *l, int size, u64 v, int mo, Entry const *chain) {
  Thread *t = S.cur;
  VC hb, cv;
  if (is_rel(mo)) {
    hb = t->hb;
    cv = t->cv;
  } else {
    hb = t->rel_hb;
    cv = t->rel_cv;
  }
  if (chain) {
    vc_join(hb, chain->hb);
    vc_join(cv, chain->cv);
  }
  if (l->mixed) {
    Entry &e = l->e[l->head];
    vc_join(e.hb, hb);
    vc_join(e.cv, cv);
    return;
  }
  l->ts++;
  if (S.cfg.weak) {
    l->head = (u16)((l->head + 1) % H);
    if (l->n < H) l->n++;
  }
  Entry &e = l->e[l->head];
  e.val = trunc(v, size);
  e.clk = t->cv.c[t->id];
  e.tid = (u8)t->id;
  e.hb = hb;
  e.cv = cv;
  memset(e.stale, 0, sizeof e.stale);
  memset(e.seen, 0, sizeof e.seen);
  e.seen[t->id] = e.clk;
  if (mo == MO_SC) {
    l->sc_ts = l->ts;
    if (S.S_cv.c[t->id] < e.clk) S.S_cv.c[t->id] = e.clk;
  }
}

static void atomic_store(uptr a, int size, u64 v, int mo, uptr pc) {
  mo &= 7;
  if (!S.active) return raw_store(a, size, v);
  point(a);
  if (!tracked(a)) {
    if (a < 4096) bad_mem(a, size, true, pc);
    vc_join(S.other_hb, S.cur->hb);
    tick(S.cur);
    return raw_store(a, size, v);
  }
  check_heap(a, size, true, pc);
  Gran *g = gran_get(a);
  cell_access(g, (u8)(((1u << size) - 1) << (a & 7)), 3, a, size, pc);
  Loc *l = loc_get(g, a, size);
  tick(S.cur);
  put(l, size, v, mo, nullptr);
  if (is_rel(mo)) tick(S.cur); // what follows is not part of what was released
  raw_store(a, size, v);
  S.hash = mix(S.hash, v ^ (u64)S.cur->id << 56 ^ 0x77);
  if (unlikely(S.trace)) trace_op("store", a, size, v, mo, pc);
}

// f: old -> new, returns false if nothing is stored (failed CAS)
template <class F>
static u64 atomic_rmw(uptr a, int size, int mo, int fmo, uptr pc, const char *name, F f, bool &stored) {
  mo &= 7;
  fmo &= 7;
  u64 nv;
  if (!S.active) {
    u64 o = raw_load(a, size);
    stored = f(o, nv);
    if (stored) raw_store(a, size, nv);
    return o;
  }
  point(a);
  Thread *t = S.cur;
  if (!tracked(a)) {
    if (a < 4096) bad_mem(a, size, true, pc);
    vc_join(t->hb, S.other_hb);
    vc_join(t->cv, S.other_hb);
    vc_join(S.other_hb, t->hb);
    tick(t);
    u64 o = raw_load(a, size);
    stored = f(o, nv);
    if (stored) raw_store(a, size, nv);
    return o;
  }
  check_heap(a, size, true, pc);
  Gran *g = gran_get(a);
  Loc *l = loc_get(g, a, size);
  tick(t);
  u64 o = raw_load(a, size);
  stored = f(o, nv);
  cell_access(g, (u8)(((1u << size) - 1) << (a & 7)), stored ? 3 : 2, a, size, pc);
  Entry &cur = l->e[l->head];
  if (!stored) mo = fmo;
  if (!l->mixed && !cur.seen[t->id]) cur.seen[t->id] = t->cv.c[t->id];
  acquire_from(t, cur, mo);
  if (stored) {
    Entry chain;
    chain.hb = cur.hb;
    chain.cv = cur.cv;
    put(l, size, nv, mo, &chain);
    if (is_rel(mo)) tick(t);
    raw_store(a, size, nv);
  }
  S.hash = mix(S.hash, o ^ (u64)t->id << 56 ^ 0x99);
  if (unlikely(S.trace)) trace_op(name, a, size, stored ? nv : o, mo, pc, stored ? "" : "(failed)");
  return o;
}

static bool atomic_cas(uptr a, int size, u64 &expected, u64 desired, int mo, int fmo, uptr pc, bool weakcas) {
  if (S.active && weakcas && S.cfg.cas_den && fault_choice("spurious_cas", S.cfg.cas_den)) {
    u64 v = atomic_load(a, size, fmo, pc);
    if (trunc(v, size) != trunc(expected, size)) {
      expected = v;
    }
    return false;
  }
  bool st = false;
  u64 exp = trunc(expected, size);
  u64 o = atomic_rmw(
      a, size, mo, fmo, pc, "cas",
      [&](u64 old, u64 &nv) {
        nv = desired;
        return old == exp;
      },
      st);
  if (!st) expected = o;
  return st;
}

static void atomic_fence(int mo, uptr pc) {
  mo &= 7;
  if (!S.active) return;
  point(0);
  Thread *t = S.cur;
  if (is_acq(mo)) {
    vc_join(t->hb, t->acq_hb);
    vc_join(t->cv, t->acq_cv);
  }
  if (mo == MO_SC) {
    vc_join(t->cv, S.S_cv);
    tick(t);
    S.S_cv = t->cv;
  }
  if (is_rel(mo)) {
    t->rel_hb = t->hb;
    t->rel_cv = t->cv;
    tick(t);
  }
  S.hash = mix(S.hash, 0xfe + t->id);
  if (unlikely(S.trace)) trace_op("fence", 0, 0, 0, mo, pc);
}

#define ATOMICS(BITS, TY)                                                                                              \
  EXPORT TY __tsan_atomic##BITS##_load(const volatile TY *p, int mo) {                                                 \
    return (TY)atomic_load((uptr)p, sizeof(TY), mo, PC);                                                               \
  }                                                                                                                    \
  EXPORT void __tsan_atomic##BITS##_store(volatile TY *p, TY v, int mo) {                                              \
    atomic_store((uptr)p, sizeof(TY), (u64)v, mo, PC);                                                                 \
  }                                                                                                                    \
  EXPORT TY __tsan_atomic##BITS##_exchange(volatile TY *p, TY v, int mo) {                                             \
    bool s;                                                                                                            \
    return (TY)atomic_rmw((uptr)p, sizeof(TY), mo, mo, PC, "xchg", [&](u64, u64 &n) { n = (u64)v; return true; }, s);  \
  }                                                                                                                    \
  EXPORT TY __tsan_atomic##BITS##_fetch_add(volatile TY *p, TY v, int mo) {                                            \
    bool s;                                                                                                            \
    return (TY)atomic_rmw((uptr)p, sizeof(TY), mo, mo, PC, "add", [&](u64 o, u64 &n) { n = (TY)((TY)o + v); return true; }, s); \
  }                                                                                                                    \
  EXPORT TY __tsan_atomic##BITS##_fetch_sub(volatile TY *p, TY v, int mo) {                                            \
    bool s;                                                                                                            \
    return (TY)atomic_rmw((uptr)p, sizeof(TY), mo, mo, PC, "sub", [&](u64 o, u64 &n) { n = (TY)((TY)o - v); return true; }, s); \
  }                                                                                                                    \
  EXPORT TY __tsan_atomic##BITS##_fetch_and(volatile TY *p, TY v, int mo) {                                            \
    bool s;                                                                                                            \
    return (TY)atomic_rmw((uptr)p, sizeof(TY), mo, mo, PC, "and", [&](u64 o, u64 &n) { n = (TY)((TY)o & v); return true; }, s); \
  }                                                                                                                    \
  EXPORT TY __tsan_atomic##BITS##_fetch_or(volatile TY *p, TY v, int mo) {                                             \
    bool s;                                                                                                            \
    return (TY)atomic_rmw((uptr)p, sizeof(TY), mo, mo, PC, "or", [&](u64 o, u64 &n) { n = (TY)((TY)o | v); return true; }, s); \
  }                                                                                                                    \
  EXPORT TY __tsan_atomic##BITS##_fetch_xor(volatile TY *p, TY v, int mo) {                                            \
    bool s;                                                                                                            \
    return (TY)atomic_rmw((uptr)p, sizeof(TY), mo, mo, PC, "xor", [&](u64 o, u64 &n) { n = (TY)((TY)o ^ v); return true; }, s); \
  }                                                                                                                    \
  EXPORT TY __tsan_atomic##BITS##_fetch_nand(volatile TY *p, TY v, int mo) {                                           \
    bool s;                                                                                                            \
    return (TY)atomic_rmw((uptr)p, sizeof(TY), mo, mo, PC, "nand", [&](u64 o, u64 &n) { n = (TY)~((TY)o & v); return true; }, s); \
  }                                                                                                                    \
  EXPORT int __tsan_atomic##BITS##_compare_exchange_strong(volatile TY *p, TY *e, TY d, int mo, int fmo) {             \
    u64 x = (u64)*e;                                                                                                   \
    bool ok = atomic_cas((uptr)p, sizeof(TY), x, (u64)d, mo, fmo, PC, false);                                          \
    if (!ok) *e = (TY)x;                                                                                               \
    return ok;                                                                                                         \
  }                                                                                                                    \
  EXPORT int __tsan_atomic##BITS##_compare_exchange_weak(volatile TY *p, TY *e, TY d, int mo, int fmo) {               \
    u64 x = (u64)*e;                                                                                                   \
    bool ok = atomic_cas((uptr)p, sizeof(TY), x, (u64)d, mo, fmo, PC, true);                                           \
    if (!ok) *e = (TY)x;                                                                                               \
    return ok;                                                                                                         \
  }                                                                                                                    \
  EXPORT TY __tsan_atomic##BITS##_compare_exchange_val(volatile TY *p, TY e, TY d, int mo, int fmo) {                  \
    u64 x = (u64)e;                                                                                                    \
    atomic_cas((uptr)p, sizeof(TY), x, (u64)d, mo, fmo, PC, false);                                                    \
    return (TY)x;                                                                                                      \
  }

ATOMICS(8, u8)
ATOMICS(16, u16)
ATOMICS(32, u32)
ATOMICS(64, u64)

EXPORT void __tsan_atomic_thread_fence(int mo) { atomic_fence(mo, PC); }
EXPORT void __tsan_atomic_signal_fence(int) {}

#define RW(N)                                                                                                          \
  EXPORT void __tsan_read##N(void *p) { plain((uptr)p, N, false, PC); }                                                \
  EXPORT void __tsan_write##N(void *p) { plain((uptr)p, N, true, PC); }                                                \
  EXPORT void __tsan_volatile_read##N(void *p) { plain((uptr)p, N, false, PC); }                                       \
  EXPORT void __tsan_volatile_write##N(void *p) { plain((uptr)p, N, true, PC); }                                       \
  EXPORT void __tsan_unaligned_read##N(void *p) { plain((uptr)p, N, false, PC); }                                      \
  EXPORT void __tsan_unaligned_write##N(void *p) { plain((uptr)p, N, true, PC); }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
EXPORT void __tsan_read_range(void *p, uptr n) { plain((uptr)p, (int)n, false, PC); }
EXPORT void __tsan_write_range(void *p, uptr n) { plain((uptr)p, (int)n, true, PC); }
EXPORT void __tsan_vptr_read(void **p) { plain((uptr)p, 8, false, PC); }
EXPORT void __tsan_vptr_update(void **p, void *v) {
  if (*p != v) plain((uptr)p, 8, true, PC);
}
EXPORT void __tsan_init() {}
EXPORT void __tsan_func_entry(void *) {}
EXPORT void __tsan_func_exit() {}

EXPORT void *__wrap_memcpy(void *d, const void *s, size_t n) {
  if (n) {
    plain((uptr)s, (int)n, false, PC);
    plain((uptr)d, (int)n, true, PC);
  }
  return memcpy(d, s, n);
}
EXPORT void *__wrap_memmove(void *d, const void *s, size_t n) {
  if (n) {
    plain((uptr)s, (int)n, false, PC);
    plain((uptr)d, (int)n, true, PC);
  }
  return memmove(d, s, n);
}
EXPORT void *__wrap_memset(void *d, int c, size_t n) {
  if (n) plain((uptr)d, (int)n, true, PC);
  return memset(d, c, n);
}

// clang's names for the same
EXPORT void *__tsan_memcpy(void *d, const void *s, size_t n) {
  if (n) {
    plain((uptr)s, (int)n, false, PC);
    plain((uptr)d, (int)n, true, PC);
  }
  return memcpy(d, s, n);
}
EXPORT void *__tsan_memmove(void *d, const void *s, size_t n) {
  if (n) {
    plain((uptr)s, (int)n, false, PC);
    plain((uptr)d, (int)n, true, PC);
  }
  return memmove(d, s, n);
}
EXPORT void *__tsan_memset(void *d, int c, size_t n) {
  if (n) plain((uptr)d, (int)n, true, PC);
  return memset(d, c, n);
}

// ------------------------------------------------------------------------------------------------ TLS

struct TlsIndex {
  unsigned long mod, off;
};
static void *(*real_tls_get_addr)(TlsIndex *);

EXPORT void *__tls_get_addr(TlsIndex *ti) {
  if (S.active && ti->mod == so_tls_mod) {
    Thread *t = S.cur;
    uptr base = TLS0 + (uptr)t->id * TLSSZ;
    base = (base + so_tls_align - 1) & ~(so_tls_align - 1);
    if (unlikely(!t->tls_ready)) {
      t->tls_ready = true;
      memset((void *)base, 0, so_tls_size);
      memcpy((void *)base, so_tls_img, so_tls_filesz);
      forget_range(base, so_tls_size);
    }
    return (void *)(base + ti->off);
  }
  if (!real_tls_get_addr) real_tls_get_addr = (void *(*)(TlsIndex *))dlvsym(RTLD_NEXT, "__tls_get_addr", "GLIBC_2.3");
  return real_tls_get_addr(ti);
}

EXPORT int __cxa_thread_atexit(void (*f)(void *), void *o, void *dso) {
  if (S.active) {
    Thread *t = S.cur;
    if (t->ndtors == 16) internal_error("too many thread_local destructors");
    t->dtors[t->ndtors].f = f;
    t->dtors[t->ndtors++].o = o;
    return 0;
  }
  static int (*r)(void (*)(void *), void *, void *);
  if (!r) r = (decltype(r))dlsym(RTLD_NEXT, "__cxa_thread_atexit_impl");
  return r(f, o, dso);
}

static struct {
  void (*f)(void *);
  void *o;
} atex[64];
static int natex;

EXPORT int __wrap___cxa_atexit(void (*f)(void *), void *o, void *) {
  if (S.active) {
    if (natex < 64) {
      atex[natex].f = f;
      atex[natex++].o = o;
    }
  }
  return 0; // load-time objects of the scenario library are never destroyed
}

// ------------------------------------------------------------------------------------------------ threads

static constexpr pthread_t PT = 0x5100000000ull;

template <class F>
static F real(const char *n) {
  return (F)dlsym(RTLD_NEXT, n);
}

EXPORT int pthread_create(pthread_t *out, const pthread_attr_t *at, void *(*fn)(void *), void *arg) noexcept {
  if (!S.active) return real<int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)>("pthread_create")(out, at, fn, arg);
  point(0);
  if (S.spawn_den && fault_choice("thread_spawn_fail", S.spawn_den)) return EAGAIN;
  if (S.spawns++ == 0) S.spawn_nalloc = S.nalloc;
  if (S.spawns == S.af_after_spawn) S.cur->af_den = S.af_after_den;
  Thread *t = new_thread(fn, arg);
  *out = PT + (unsigned)t->id;
  S.hash = mix(S.hash, 0xc0 + t->id);
  point(0);
  return 0;
}
EXPORT int pthread_join(pthread_t p, void **ret) {
  if (!S.active) return real<int (*)(pthread_t, void **)>("pthread_join")(p, ret);
  point(0);
  unsigned id = (unsigned)(p - PT);
  if (id >= (unsigned)S.nt || T[id].joined || T[id].detached) return ESRCH;
  while (T[id].st != T_DONE) {
    S.cur->st = T_JOIN;
    S.cur->wait_addr = id;
    block();
  }
  T[id].joined = true;
  vc_join(S.cur->hb, T[id].hb);
  vc_join(S.cur->cv, T[id].cv);
  if (ret) *ret = T[id].ret;
  return 0;
}
EXPORT int pthread_detach(pthread_t p) noexcept {
  if (!S.active) return real<int (*)(pthread_t)>("pthread_detach")(p);
  unsigned id = (unsigned)(p - PT);
  if (id < (unsigned)S.nt) T[id].detached = true;
  return 0;
}
EXPORT pthread_t pthread_self() noexcept {
  static pthread_t (*r)();
  if (S.active) return PT + (unsigned)S.cur->id;
  if (!r) r = real<pthread_t (*)()>("pthread_self");
  return r();
}
EXPORT int sched_yield() noexcept {
  if (S.active) point(0, 1);
  return 0;
}
EXPORT int get_nprocs() noexcept { return (int)S.hw_threads; }

static void sleep_ns(u64 ns) {
  point(0);
  Thread *t = S.cur;
  t->deadline = now_ns() + ns + 1;
  t->st = T_SLEEP;
  t->timed_out = false;
  block();
  t->deadline = 0;
}
EXPORT int nanosleep(const struct timespec *ts, struct timespec *) {
  if (!S.active) {
    return (int)syscall(SYS_nanosleep, ts, nullptr);
  }
  sleep_ns((u64)ts->tv_sec * 1000000000ull + (u64)ts->tv_nsec);
  return 0;
}
EXPORT int clock_nanosleep(clockid_t, int flags, const struct timespec *ts, struct timespec *) {
  if (!S.active) return 0;
  u64 v = (u64)ts->tv_sec * 1000000000ull + (u64)ts->tv_nsec;
  if (flags) {
    u64 n = now_ns() + 1000000000000ull;
    v = v > n ? v - n : 0;
  }
  sleep_ns(v);
  return 0;
}
EXPORT int usleep(useconds_t us) {
  if (S.active) sleep_ns((u64)us * 1000);
  return 0;
}
EXPORT int clock_gettime(clockid_t c, struct timespec *ts) noexcept {
  if (!S.active) return (int)syscall(SYS_clock_gettime, c, ts);
  point(0);
  u64 n = now_ns() + 1000000000000ull;
  ts->tv_sec = (time_t)(n / 1000000000ull);
  ts->tv_nsec = (long)(n % 1000000000ull);
  return 0;
}

static long raw_syscall(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 asm("r10") = d;
  register long r8 asm("r8") = e;
  register long r9 asm("r9") = f;
  asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  if (r < 0 && r > -4096) {
    errno = (int)-r;
    return -1;
  }
  return r;
}

static int futex_wake(uptr addr, int n, u32 bits) {
  int woken = 0;
  while (woken < n) {
    // FIFO by default, any waiter may be picked
    Thread *best = nullptr;
    int cnt = 0;
    for (int i = 0; i < S.nt; ++i)
      if (T[i].st == T_FUTEX && T[i].wait_addr == addr && (T[i].wait_bits & bits)) {
        ++cnt;
        if (!best || T[i].wait_seq < best->wait_seq) best = &T[i];
      }
    if (!best) break;
    if (n != INT32_MAX && cnt > 1 && fault_choice("futex_unfair_wake", S.cfg.spur_den ? 3 : 0)) {
      for (int i = S.nt - 1; i >= 0; --i)
        if (T[i].st == T_FUTEX && T[i].wait_addr == addr && (T[i].wait_bits & bits)) {
          best = &T[i];
          break;
        }
    }
    wake(best);
    ++woken;
  }
  return woken;
}

static long sim_futex(uptr addr, int op, u32 val, const struct timespec *ts, u32 bits) {
  int cmd = op & 127 & ~FUTEX_PRIVATE_FLAG;
  point(addr);
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    if (*(volatile u32 *)addr != val) {
      errno = EAGAIN;
      return -1;
    }
    if (S.cfg.spur_den && fault_choice("spurious_wakeup", S.cfg.spur_den)) {
      errno = EINTR;
      return -1;
    }
    Thread *t = S.cur;
    t->st = T_FUTEX;
    t->wait_addr = addr;
    t->wait_bits = cmd == FUTEX_WAIT ? ~0u : bits;
    t->wait_seq = S.wseq++;
    t->timed_out = false;
    t->deadline = 0;
    if (ts) {
      u64 v = (u64)ts->tv_sec * 1000000000ull + (u64)ts->tv_nsec;
      if (cmd == FUTEX_WAIT_BITSET) {
        u64 n = now_ns() + 1000000000000ull;
        v = v > n ? v - n : 0;
      }
      t->deadline = now_ns() + v + 1;
    }
    S.futex_sleeps++;
    if (unlikely(S.trace)) trace_op("futexwait", addr, 4, val, 0, 0);
    block();
    t->deadline = 0;
    if (t->timed_out) {
      errno = ETIMEDOUT;
      return -1;
    }
    return 0;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    int k = futex_wake(addr, (int)val, cmd == FUTEX_WAKE ? ~0u : bits);
    if (unlikely(S.trace)) trace_op("futexwake", addr, 4, (u64)k, 0, 0);
    S.hash = mix(S.hash, 0xf0 + (u64)k);
    return k;
  }
  internal_error("unsupported futex operation %d", op);
}

EXPORT long syscall(long n, ...) noexcept {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long),
       f = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && S.active) return sim_futex((uptr)a, (int)b, (u32)c, (const struct timespec *)d, (u32)f);
  return raw_syscall(n, a, b, c, d, e, f);
}

// --- mutexes and condition variables (the library uses none today; supported so that a refactoring may) ---

struct Mx {
  uptr a;
  int owner; // -1 free
  int depth;
  VC hb;
};
static Mx mxs[256];
static int nmx;
static Mx *mx(uptr a) {
  for (int i = 0; i < nmx; ++i)
    if (mxs[i].a == a) return &mxs[i];
  if (nmx == 256) internal_error("too many mutexes");
  mxs[nmx].a = a;
  mxs[nmx].owner = -1;
  mxs[nmx].depth = 0;
  vc_zero(mxs[nmx].hb);
  return &mxs[nmx++];
}
static void mx_lock(Mx *m) {
  Thread *t = S.cur;
  while (m->owner >= 0) {
    t->st = T_MUTEX;
    t->wait_addr = m->a;
    block();
  }
  m->owner = t->id;
  vc_join(t->hb, m->hb);
  vc_join(t->cv, m->hb);
}
static void mx_unlock(Mx *m) {
  Thread *t = S.cur;
  m->owner = -1;
  m->hb = t->hb;
  tick(t);
  for (int i = 0; i < S.nt; ++i)
    if (T[i].st == T_MUTEX && T[i].wait_addr == m->a) wake(&T[i]);
}
EXPORT int pthread_mutex_lock(pthread_mutex_t *p) noexcept {
  if (!S.active) {
    static int (*r)(pthread_mutex_t *);
    if (!r) r = real<int (*)(pthread_mutex_t *)>("pthread_mutex_lock");
    return r(p);
  }
  point((uptr)p);
  Mx *m = mx((uptr)p);
  if (m->owner == S.cur->id) { // recursive or self deadlock
    if (p->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP) {
      m->depth++;
      return 0;
    }
    report("stuck", "a thread locks a mutex it already owns");
  }
  mx_lock(m);
  return 0;
}
EXPORT int pthread_mutex_trylock(pthread_mutex_t *p) noexcept {
  if (!S.active) return real<int (*)(pthread_mutex_t *)>("pthread_mutex_trylock")(p);
  point((uptr)p);
  Mx *m = mx((uptr)p);
  if (m->owner >= 0) return EBUSY;
  mx_lock(m);
  return 0;
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t *p) noexcept {
  if (!S.active) {
    static int (*r)(pthread_mutex_t *);
    if (!r) r = real<int (*)(pthread_mutex_t *)>("pthread_mutex_unlock");
    return r(p);
  }
  Mx *m = mx((uptr)p);
  if (m->depth) {
    m->depth--;
    return 0;
  }
  mx_unlock(m);
  point((uptr)p);
  return 0;
}
EXPORT int pthread_mutex_destroy(pthread_mutex_t *p) noexcept {
  if (!S.active) return 0;
  for (int i = 0; i < nmx; ++i)
    if (mxs[i].a == (uptr)p) mxs[i] = mxs[--nmx];
  return 0;
}
static int cond_wait(pthread_cond_t *c, pthread_mutex_t *p, u64 deadline) {
  Thread *t = S.cur;
  point((uptr)c);
  if (S.cfg.spur_den && fault_choice("spurious_wakeup", S.cfg.spur_den)) return 0;
  mx_unlock(mx((uptr)p));
  t->st = T_COND;
  t->wait_addr = (uptr)c;
  t->wait_seq = S.wseq++;
  t->deadline = deadline;
  t->timed_out = false;
  block();
  t->deadline = 0;
  mx_lock(mx((uptr)p));
  return t->timed_out ? ETIMEDOUT : 0;
}
EXPORT int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *p) {
  if (!S.active) return real<int (*)(pthread_cond_t *, pthread_mutex_t *)>("pthread_cond_wait")(c, p);
  return cond_wait(c, p, 0);
}
static u64 abs_deadline(const struct timespec *ts) {
  u64 v = (u64)ts->tv_sec * 1000000000ull + (u64)ts->tv_nsec, n = 1000000000000ull;
  return v > n ? v - n + 1 : 1;
}
EXPORT int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *p, const struct timespec *ts) {
  if (!S.active) return ETIMEDOUT;
  return cond_wait(c, p, abs_deadline(ts));
}
EXPORT int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *p, clockid_t, const struct timespec *ts) {
  if (!S.active) return ETIMEDOUT;
  return cond_wait(c, p, abs_deadline(ts));
}
static void cond_wake(pthread_cond_t *c, int n) {
  point((uptr)c);
  while (n-- > 0) {
    Thread *best = nullptr;
    for (int i = 0; i < S.nt; ++i)
      if (T[i].st == T_COND && T[i].wait_addr == (uptr)c && (!best || T[i].wait_seq < best->wait_seq)) best = &T[i];
    if (!best) break;
    wake(best);
  }
}
EXPORT int pthread_cond_signal(pthread_cond_t *c) noexcept {
  if (!S.active) return real<int (*)(pthread_cond_t *)>("pthread_cond_signal")(c);
  cond_wake(c, 1);
  return 0;
}
EXPORT int pthread_cond_broadcast(pthread_cond_t *c) noexcept {
  if (!S.active) return real<int (*)(pthread_cond_t *)>("pthread_cond_broadcast")(c);
  cond_wake(c, MAXT);
  return 0;
}
EXPORT int pthread_cond_destroy(pthread_cond_t *) noexcept { return 0; }

// --- POSIX semaphores (std::counting_semaphore may be built on them) ---
EXPORT int __wrap_sem_init(sem_t *s, int, unsigned v) {
  *(u32 *)s = v;
  return 0;
}

// --- static initialisation guards ---
EXPORT int __cxa_guard_acquire(u8 *g) {
  if (!S.active) {
    if (*g) return 0;
    return 1;
  }
  point((uptr)g);
  for (;;) {
    if (g[0]) {
      atomic_load((uptr)g, 1, MO_ACQ, PC);
      return 0;
    }
    if (!g[1]) {
      g[1] = 1;
      return 1;
    }
    S.cur->st = T_GUARD;
    S.cur->wait_addr = (uptr)g;
    block();
  }
}
static void guard_wake(u8 *g) {
  for (int i = 0; i < S.nt; ++i)
    if (T[i].st == T_GUARD && T[i].wait_addr == (uptr)g) wake(&T[i]);
}
EXPORT void __cxa_guard_release(u8 *g) {
  g[1] = 0;
  if (!S.active) {
    g[0] = 1;
    return;
  }
  atomic_store((uptr)g, 1, 1, MO_REL, PC);
  guard_wake(g);
}
EXPORT void __cxa_guard_abort(u8 *g) {
  g[1] = 0;
  if (S.active) guard_wake(g);
}

// --- hwloc binding ---
extern "C" {
struct hwloc_topology;
struct hwloc_bitmap_s;
}
EXPORT int hwloc_set_cpubind(hwloc_topology *t, const hwloc_bitmap_s *s, int f) {
  (void)t, (void)s, (void)f;
  if (S.active) {
    S.binds++;
    if (S.bind_den && fault_choice("cpu_bind_fail", S.bind_den)) {
      errno = ENOSYS;
      return -1;
    }
  }
  return 0;
}

// --- hwloc's own memory: what the library was handed and has to give back ---
struct HwList { // not a std::vector: operator new is the simulated program's
  void *v[1024];
  size_t n = 0;
  void add(void *p) {
    if (n < 1024) v[n++] = p;
  }
  bool has(void *p) const { return std::find(v, v + n, p) != v + n; }
  bool take(void *p) {
    void **i = std::find(v, v + n, p);
    if (i == v + n) return false;
    *i = v[--n];
    return true;
  }
};
static HwList hw_topos, hw_sets, hw_freed;
// The real functions, found before any run (nothing may happen only in the first run of a process).
static struct {
  int (*topology_init)(hwloc_topology **);
  void (*topology_destroy)(hwloc_topology *);
  hwloc_bitmap_s *(*bitmap_alloc)(), *(*bitmap_alloc_full)(), *(*bitmap_dup)(const hwloc_bitmap_s *);
  void (*bitmap_free)(hwloc_bitmap_s *);
  int (*bitmap_singlify)(hwloc_bitmap_s *);
} hw;
static void hw_setup(void *lib) {
#define HW(f) hw.f = (decltype(hw.f))dlsym(lib, "hwloc_" #f)
  HW(topology_init), HW(topology_destroy), HW(bitmap_alloc), HW(bitmap_alloc_full), HW(bitmap_dup), HW(bitmap_free), HW(bitmap_singlify);
#undef HW
}
static bool hw_fault(const char *kind) {
  if (!S.active || !S.hwloc_den || !fault_choice(kind, S.hwloc_den)) return false;
  S.hwloc_fails++;
  errno = ENOMEM;
  return true;
}
extern "C" {
EXPORT int __wrap_hwloc_topology_init(hwloc_topology **t) {
  auto real = hw.topology_init;
  if (hw_fault("hwloc_topology_init_fail")) return -1;
  int r = real(t);
  if (S.active && r == 0) hw_topos.add(*t);
  return r;
}
EXPORT void __wrap_hwloc_topology_destroy(hwloc_topology *t) {
  auto real = hw.topology_destroy;
  if (S.active && !hw_topos.take(t)) reportf("memory", "a hardware topology that is not live was destroyed by t%d", S.cur->id);
  real(t);
}
static hwloc_bitmap_s *hw_give(hwloc_bitmap_s *b) {
  if (S.active && b) {
    hw_sets.add(b);
    hw_freed.take(b);
  }
  return b;
}
EXPORT hwloc_bitmap_s *__wrap_hwloc_bitmap_alloc() {
  auto real = hw.bitmap_alloc;
  return hw_give(real());
}
EXPORT hwloc_bitmap_s *__wrap_hwloc_bitmap_alloc_full() {
  auto real = hw.bitmap_alloc_full;
  return hw_give(real());
}
EXPORT hwloc_bitmap_s *__wrap_hwloc_bitmap_dup(const hwloc_bitmap_s *b) {
  auto real = hw.bitmap_dup;
  return hw_give(real(b)); // no faults: hwloc_distrib() itself, inline in hwloc.h, does not survive one
}
EXPORT void __wrap_hwloc_bitmap_free(hwloc_bitmap_s *b) {
  auto real = hw.bitmap_free;
  if (S.active && b) {
    if (hw_sets.take(b))
      hw_freed.add(b);
    else if (hw_freed.has(b))
      reportf("memory", "a set of processing units was released twice, by t%d", S.cur->id);
  }
  real(b);
}
EXPORT int __wrap_hwloc_bitmap_singlify(hwloc_bitmap_s *b) {
  auto real = hw.bitmap_singlify;
  return hw_fault("hwloc_singlify_fail") ? -1 : real(b);
}
}

// --- entropy ---
// std::random_device members live in libstdc++.so; the executable's definitions win.
namespace std {
unsigned int random_device::_M_getval() { return S.active ? (unsigned)S.r_ent.next() : 4u; }
void random_device::_M_init(const std::string &) {}
void random_device::_M_fini() {}
} // namespace std

// ------------------------------------------------------------------------------------------------ failures

EXPORT void __assert_fail(const char *e, const char *f, unsigned l, const char *) noexcept {
  const char *b = strrchr(f, '/');
  reportf("assert", "assertion failed: %s (%s:%u)", e, b ? b + 1 : f, l);
}

static void on_signal(int sig, siginfo_t *si, void *uc) {
  uptr pc = (uptr)((ucontext_t *)uc)->uc_mcontext.gregs[16 /*REG_RIP*/];
  if (!S.active && !S.cur) {
    wr(g_result_fd, "{\"type\":\"internal\",\"message\":\"signal %d in the simulator\",\"seed\":%llu}\n", sig, (unsigned long long)S.seed);
    _exit(2);
  }
  char p[64], ad[200];
  format_pc(p, sizeof p, pc);
  snprintf(ad, sizeof ad, "%lx", (unsigned long)(uptr)si->si_addr);
  if (sig == SIGALRM) {
    reportf("stuck", "the simulated program looped without reaching a scheduling point (t%d) at %s", S.cur ? S.cur->id : -1, p);
  }
  reportf("crash", "signal %d (%s), fault address %s, in t%d at %s", sig, sigabbrev_np(sig), ad, S.cur ? S.cur->id : -1, p);
}

static void on_terminate() {
  if (!S.active) abort();
  const char *what = "";
  char b[300] = "";
  std::exception_ptr p = std::current_exception();
  if (p) {
    int st = 0;
    std::type_info *ti = abi::__cxa_current_exception_type();
    S.active = false;
    char *d = ti ? abi::__cxa_demangle(ti->name(), nullptr, nullptr, &st) : nullptr;
    S.active = true;
    snprintf(b, sizeof b, " with an active %s", d ? d : "exception");
    what = b;
  }
  reportf("terminate", "std::terminate was called by t%d%s", S.cur->id, what);
}

// ------------------------------------------------------------------------------------------------ scenario API

extern "C" {

uint32_t sim_choose(uint32_t n) {
  u32 v;
  if (S.replay) {
    v = work.n < work_in.n ? work_in[work.n] : 0;
    if (n == 0) n = 1;
    if (v >= n) v = v % n;
  } else
    v = S.r_work.below(n);
  work.push(v);
  S.hash = mix(S.hash, v);
  return v;
}
int sim_fault(const char *kind, uint32_t den) { return fault_choice(kind, den); }
void sim_fail(const char *cls, const char *fmt, ...) {
  char b[2048];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  report(cls, b);
}
void sim_cover(const char *p) { bump(named(probes, nprobes, 256, p)); }
void sim_nontrivial() { S.nontrivial = true; }
void sim_describe(const char *fmt, ...) {
  if (S.ndesc > sizeof S.desc - 300) return;
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(S.desc + S.ndesc, sizeof S.desc - S.ndesc - 2, fmt, ap);
  va_end(ap);
  S.ndesc += std::min<size_t>((size_t)n, sizeof S.desc - S.ndesc - 2);
  S.desc[S.ndesc++] = '\n';
}
void sim_alloc_faults(uint32_t den, int all) {
  if (all)
    S.af_den_all = den;
  else
    S.cur->af_den = den;
}
void sim_alloc_faults_min(uint32_t den, uint64_t mn) {
  S.af_den_all = den;
  S.af_den_min = mn;
}
void sim_alloc_fail_nth(int64_t n, uint64_t mn) {
  S.af_nth = n;
  S.af_min = mn;
}
int64_t sim_alloc_failures() { return S.af_count; }
uint64_t sim_alloc_count() { return S.nalloc; }
uint64_t sim_live_blocks() { return S.live_blocks; }
uint64_t sim_live_bytes() { return S.live_bytes; }
int sim_tid() { return S.cur->id; }
uint64_t sim_step() { return S.steps; }
void sim_point() { point(0); }
void sim_budget(uint64_t a, uint64_t b) {
  S.fair_after = S.steps + a;
  S.fair_budget = b;
}
void sim_no_leak_check() { S.leakcheck = false; }
void sim_set_hw_threads(unsigned n) { S.hw_threads = n; }
uint64_t sim_bind_calls() { return S.binds; }
void sim_bind_faults(uint32_t den) { S.bind_den = den; }
void sim_spawn_faults(uint32_t den) { S.spawn_den = den; }
void sim_alloc_faults_after_spawns(uint64_t n, uint32_t den) {
  S.spawns = 0;
  S.af_after_spawn = n;
  S.af_after_den = den;
}
uint64_t sim_alloc_count_at_spawn() { return S.spawn_nalloc; }
uint32_t sim_hwloc_faults(uint32_t den) {
  u32 o = S.hwloc_den;
  S.hwloc_den = den;
  return o;
}
int sim_hwloc_fault(const char *kind) { return hw_fault(kind); }
uint64_t sim_hwloc_failures() { return S.hwloc_fails; }
uint64_t sim_futex_sleeps() { return S.futex_sleeps; }
int sim_live_threads() {
  int n = 0;
  for (int i = 0; i < S.nt; ++i) n += T[i].st != T_DONE && T[i].st != T_UNUSED;
  return n;
}
int sim_blocked_threads() {
  int n = 0;
  for (int i = 0; i < S.nt; ++i) n += T[i].st != T_RUN && T[i].st != T_DONE && T[i].st != T_UNUSED;
  return n;
}
int sim_wait_quiescent(uint64_t max) {
  point(0);
  S.cur->st = T_QUIESCE;
  S.cur->quiet = 0;
  S.cur->wait_seq = S.steps + max;
  block();
  return S.cur->quiet;
}
int sim_weak() { return S.cfg.weak; }
void sim_inconclusive(const char *why) {
  run_outcome = 1;
  run_why = why;
  leave_to_host();
}
void sim_forget(const void *p, size_t n) { forget_range((uptr)p, n); }
int64_t *sim_counter(const char *name) {
  Named *x = named(counters, ncounters, 256, name);
  if (x->last_run != S.run_no) {
    x->last_run = S.run_no;
    x->val = 0;
  }
  return &x->val;
}
}

// ------------------------------------------------------------------------------------------------ running

static int find_so(struct dl_phdr_info *i, size_t, void *) {
  if (!i->dlpi_name || !strstr(i->dlpi_name, so_path)) return 0;
  so_base = i->dlpi_addr;
  uptr ro0 = 0, ro1 = 0;
  for (int k = 0; k < i->dlpi_phnum; ++k)
    if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) {
      ro0 = so_base + i->dlpi_phdr[k].p_vaddr;
      ro1 = (ro0 + i->dlpi_phdr[k].p_memsz + 4095) & ~4095ull;
    }
  for (int k = 0; k < i->dlpi_phnum; ++k) {
    auto &p = i->dlpi_phdr[k];
    if (p.p_type == PT_LOAD && (p.p_flags & PF_W)) {
      uptr a = so_base + p.p_vaddr, b = a + p.p_memsz;
      if (a < ro1 && a >= (ro0 & ~4095ull)) a = ro1;
      if (a < b) D0 = a, D1 = b;
    }
    if (p.p_type == PT_TLS) {
      so_tls_mod = i->dlpi_tls_modid;
      so_tls_size = p.p_memsz;
      so_tls_filesz = p.p_filesz;
      so_tls_align = std::max<size_t>(p.p_align, 1);
      so_tls_img = (void *)(so_base + p.p_vaddr);
    }
  }
  return 1;
}

static void *map_at(uptr a, size_t n, const char *what) {
  void *p = mmap((void *)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (a ? MAP_FIXED_NOREPLACE : 0), -1, 0);
  if (p == MAP_FAILED || (a && p != (void *)a)) {
    fprintf(stderr, "simrun: cannot map %s: %s\n", what, strerror(errno));
    _exit(2);
  }
  return p;
}

static SimScenario *g_scn;

static void *main_fiber(void *) {
  g_scn->fn();
  // the scenario is over: every thread must have ended and all memory must be back
  for (int i = 1; i < S.nt; ++i)
    if (T[i].st != T_DONE) reportf("thread-leak", "simulated thread %d is still %s after the scenario ended", i, tstate_name(T[i].st));
  while (natex) {
    auto d = atex[--natex];
    d.f(d.o);
  }
  return nullptr;
}

static void setup(const char *lib) {
  snprintf(so_path, sizeof so_path, "%s", lib);
  __libc_single_threaded = 0;
  map_at(A0, ASZ, "heap");
  map_at(S0, SSZ, "stacks");
  for (int i = 0; i < MAXT; ++i) mprotect((void *)(S0 + i * STK), 4096, PROT_NONE);
  gidx = (u32 *)map_at(0, (ASZ + SSZ + DMAX) / 8 * sizeof(u32) + 64, "index");
  grans = (Gran *)map_at(0, (size_t)MAXGRAN * sizeof(Gran), "granules");
  locs = (Loc *)map_at(0, (size_t)MAXLOC * sizeof(Loc), "locations");
  ashadow = (u8 *)map_at(0, ASZ / 8 + 64, "heap shadow");
  static u8 alt[64 << 10];
  stack_t ss{};
  ss.ss_sp = alt;
  ss.ss_size = sizeof alt;
  sigaltstack(&ss, nullptr);
  struct sigaction sa{};
  sa.sa_sigaction = on_signal;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGTRAP, SIGALRM}) sigaction(s, &sa, nullptr);
  std::set_terminate(on_terminate);
  eh_globals = (void **)abi::__cxa_get_globals();
  void *h = dlopen(lib, RTLD_NOW | RTLD_LOCAL);
  if (!h) {
    fprintf(stderr, "simrun: %s\n", dlerror());
    _exit(2);
  }
  hw_setup(h);
  dl_iterate_phdr(find_so, nullptr);
  if (!so_base) internal_error("cannot find the scenario library");
  if (D1 - D0 > DMAX) internal_error("static data too large");
  dcopy = (u8 *)malloc(D1 - D0);
  memcpy(dcopy, (void *)D0, D1 - D0);
  auto *tab = (SimScenario *)dlsym(h, "sim_scenarios");
  if (!tab) internal_error("no scenario table");
  g_scn = tab;
}

static void pick_scenario(const char *name) {
  for (SimScenario *s = g_scn; s->name; ++s)
    if (!strcmp(s->name, name)) {
      g_scn = s;
      g_scn_name = s->name;
      return;
    }
  fprintf(stderr, "simrun: no scenario %s\n", name);
  _exit(2);
}

static void draw_cfg() {
  Rng r{S.seed * 0x9E3779B97F4A7C15ull + 77};
  r.next();
  Cfg &c = S.cfg;
  c = Cfg{};
  bool weak = r.below(2);
  c.weak = g_cfg_mask_weak == 2 ? weak : g_cfg_mask_weak == 1;
  c.reuse = (int)r.below(2);
  c.strat = (int)r.below(4);
  c.p_log = 1 + r.below(7);
  static const u32 st[] = {0, 2, 4, 16};
  c.stale_den = st[r.below(4)];
  if (c.weak && c.stale_den == 0) c.stale_den = 3;
  static const u32 sl[] = {0, 0, 50, 400, 2000};
  c.stall_den = sl[r.below(5)];
  static const u32 sp[] = {0, 0, 2, 8};
  c.spur_den = sp[r.below(4)];
  static const u32 cs[] = {0, 3, 10};
  c.cas_den = cs[r.below(3)];
  c.fault_scale = r.below(4) != 0;
}

static void start_run(u64 seed, u64 run_no) {
  S.seed = seed;
  S.run_no = run_no;
  if (!S.replay) draw_cfg();
  auto sub = [&](u64 k) {
    Rng r{seed ^ (k * 0xD1342543DE82EF95ull)};
    r.next();
    r.s ^= r.next();
    return r;
  };
  S.r_work = sub(1), S.r_sched = sub(2), S.r_read = sub(3), S.r_fault = sub(4), S.r_ent = sub(5), S.r_fair = sub(6);
  S.fair = false;
  S.steps = S.sim_ns_extra = S.switches = S.preempt = 0;
  S.fair_after = S.fair_base_after;
  S.fair_budget = S.fair_base_budget;
  S.hash = S.shash = 0x1234567;
  S.runnable = 0;
  S.nt = 0;
  S.cur = nullptr;
  S.wseq = 0;
  S.nontrivial = false;
  S.leakcheck = true;
  for (int k = 0; k < K_NKIND; ++k) S.ord[k] = 0, S.cursor[k] = 0, rec[k].clear();
  if (!S.replay)
    for (auto &d : dev) d.clear();
  work.clear();
  S.since_switch = 0;
  S.quantum = 0;
  S.pct_low = 900;
  S.npct = 0;
  if (S.cfg.strat == 2 && !S.replay) {
    S.npct = 1 + (int)S.r_sched.below(12);
    u32 range = 1u << (8 + S.r_sched.below(10));
    for (int i = 0; i < S.npct; ++i) S.pct_points[i] = S.r_sched.below(range);
  }
  // heap
  memset(ashadow, 0, (S.brk - A0) / 8 + 16);
  if (S.brk - A0 > (64u << 20)) madvise((void *)A0, ASZ, MADV_DONTNEED);
  else
    memset((void *)A0, 0, S.brk - A0);
  S.brk = A0;
  S.live_blocks = S.live_bytes = S.nalloc = 0;
  S.af_den_all = 0;
  S.af_den_min = 0;
  S.af_nth = -1;
  S.af_count = 0;
  S.bind_den = S.spawn_den = S.hwloc_den = 0;
  S.hwloc_fails = S.spawns = S.spawn_nalloc = S.af_after_spawn = 0;
  hw_topos.n = hw_sets.n = hw_freed.n = 0;
  S.binds = S.futex_sleeps = 0;
  S.hw_threads = 4;
  memset(freelist, 0, sizeof freelist);
  vc_zero(S.S_cv);
  vc_zero(S.other_hb);
  S.nloc = S.ngran = 1;
  S.ndesc = 0;
  nmx = 0;
  natex = 0;
  memcpy((void *)D0, dcopy, D1 - D0);
  setenv("HWLOC_SYNTHETIC", "pack:1 core:4 pu:1", 1);
}

static bool run_once(u64 seed, u64 run_no) { // true: conclusive
  start_run(seed, run_no);
  run_outcome = 0;
  itimerval it{};
  it.it_value.tv_sec = 60;
  setitimer(ITIMER_REAL, &it, nullptr);
  Thread *t = new_thread(main_fiber, nullptr);
  fiber_enter_from_host(t);
  if (run_outcome == 0 && S.leakcheck && S.live_blocks) {
    char b[400];
    size_t n = 0;
    int shown = 0;
    for (uptr p = A0; p < S.brk && shown < 6; p += 16) {
      Blk *k = (Blk *)p;
      if (k->magic == MAGIC && ashadow[(p + 16 - A0) >> 3] <= 8) {
        n += snprintf(b + n, sizeof b - n, " %u@heap+0x%lx", k->size_lo, (unsigned long)(p + 16 - A0));
        ++shown;
      }
    }
    reportf("leak", "%llu heap block(s), %llu bytes were never released; sizes:%.*s", (unsigned long long)S.live_blocks,
            (unsigned long long)S.live_bytes, (int)n, b);
  }
  if (run_outcome == 0 && S.leakcheck && hw_topos.n + hw_sets.n)
    reportf("leak", "%zu hardware topologies and %zu sets of processing units were never released", hw_topos.n, hw_sets.n);
  return run_outcome == 0;
}

// ------------------------------------------------------------------------------------------------ statistics

static struct {
  u64 runs, inconclusive, steps, switches, preempt, nontrivial, weak, fair, sim_ns, maxsteps;
  u64 strat[4];
  int nsamples;
  char sample[4][1500];
} G;

static void stats_json(int fd) {
  char j[4000];
  wr(fd,
     "{\"type\":\"stats\",\"runs\":%llu,\"inconclusive\":%llu,\"steps\":%llu,\"switches\":%llu,\"preempt\":%llu,"
     "\"nontrivial\":%llu,\"weak\":%llu,\"fair\":%llu,\"sim_ns\":%llu,\"maxsteps\":%llu,\"strat\":[%llu,%llu,%llu,%llu],\"probes\":{",
     (unsigned long long)G.runs, (unsigned long long)G.inconclusive, (unsigned long long)G.steps,
     (unsigned long long)G.switches, (unsigned long long)G.preempt, (unsigned long long)G.nontrivial,
     (unsigned long long)G.weak, (unsigned long long)G.fair, (unsigned long long)G.sim_ns, (unsigned long long)G.maxsteps,
     (unsigned long long)G.strat[0], (unsigned long long)G.strat[1], (unsigned long long)G.strat[2], (unsigned long long)G.strat[3]);
  for (int i = 0; i < nprobes; ++i)
    wr(fd, "%s\"%s\":[%llu,%llu]", i ? "," : "", probes[i].name, (unsigned long long)probes[i].total, (unsigned long long)probes[i].runs);
  wr(fd, "},\"faults\":{");
  for (int i = 0; i < nfaults; ++i)
    wr(fd, "%s\"%s\":[%llu,%llu]", i ? "," : "", faults[i].name, (unsigned long long)faults[i].total, (unsigned long long)faults[i].runs);
  wr(fd, "},\"samples\":[");
  for (int i = 0; i < G.nsamples; ++i) {
    json_str(j, sizeof j, G.sample[i]);
    wr(fd, "%s\"%s\"", i ? "," : "", j);
  }
  wr(fd, "]}\n");
}

static double wall() {
  timespec ts;
  raw_syscall(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&ts, 0, 0, 0, 0);
  return (double)ts.tv_sec + (double)ts.tv_nsec * 1e-9;
}

// batch <lib> <scenario> <seed0> <stride> <maxruns> <seconds> <replay-out> <hash-file|-> <weak 0/1/2> [fair_after fair_budget]
static int cmd_batch(int c, char **v) {
  if (c < 9) return 2;
  g_lib = v[0];
  setup(v[0]);
  pick_scenario(v[1]);
  u64 seed = strtoull(v[2], nullptr, 10), stride = strtoull(v[3], nullptr, 10), maxruns = strtoull(v[4], nullptr, 10);
  double secs = atof(v[5]);
  g_replay_out = v[6];
  int hfd = strcmp(v[7], "-") ? open(v[7], O_WRONLY | O_CREAT | O_TRUNC, 0644) : -1;
  g_cfg_mask_weak = strtoull(v[8], nullptr, 10);
  if (c > 9) S.fair_base_after = strtoull(v[9], nullptr, 10);
  if (c > 10) S.fair_base_budget = strtoull(v[10], nullptr, 10);
  double t0 = wall();
  struct HR {
    u64 sh, h;
    u32 flags, pad;
    u64 seed;
  };
  static HR buf[512];
  int nb = 0;
  for (u64 i = 0; i < maxruns; ++i, seed += stride) {
    bool ok = run_once(seed, i);
    if (ok) {
      G.runs++;
      G.steps += S.steps;
      G.switches += S.switches;
      G.preempt += S.preempt;
      G.nontrivial += S.nontrivial;
      G.weak += S.cfg.weak;
      G.fair += S.fair;
      G.sim_ns += now_ns();
      G.maxsteps = std::max(G.maxsteps, S.steps);
      G.strat[S.cfg.strat]++;
      if (S.nontrivial && G.nsamples < 4 && S.ndesc) {
        snprintf(G.sample[G.nsamples], sizeof G.sample[0], "seed %llu (%s, %llu steps, %llu preemptions): %.*s",
                 (unsigned long long)seed, S.cfg.weak ? "weak memory" : "SC", (unsigned long long)S.steps,
                 (unsigned long long)S.preempt, (int)std::min<size_t>(S.ndesc, 1200), S.desc);
        G.nsamples++;
      }
      u64 wh = 77;
      for (auto w : work) wh = mix(wh, w);
      buf[nb++] = HR{mix(S.shash, wh), S.hash, (u32)(S.nontrivial | S.cfg.weak << 1), 0, seed};
      if (nb == 512) {
        if (hfd >= 0 && write(hfd, buf, sizeof buf) < 0) return 2;
        nb = 0;
      }
    } else
      G.inconclusive++;
    if ((i & 3) == 0 && wall() - t0 > secs) break;
  }
  if (hfd >= 0 && nb && write(hfd, buf, sizeof(HR) * (size_t)nb) < 0) return 2;
  stats_json(1);
  return 0;
}

struct Replay {
  char lib[1024], scn[256], cls[64], msg[1200];
  u64 seed = 0, hash = 0, steps = 0;
  int weak = 0, reuse = 0;
  u32 scale = 1;
  Vec<u32> work;
  Vec<Dev> d[K_NKIND];
};

static bool load_replay(const char *path, Replay &r) {
  FILE *f = fopen(path, "r");
  if (!f) return false;
  char *line = nullptr;
  size_t cap = 0;
  while (getline(&line, &cap, f) > 0) {
    line[strcspn(line, "\n")] = 0;
    char *sp = strchr(line, ' ');
    const char *val = sp ? sp + 1 : "";
    if (sp) *sp = 0;
    if (!strcmp(line, "end")) break;
    if (!strcmp(line, "lib")) snprintf(r.lib, sizeof r.lib, "%s", val);
    else if (!strcmp(line, "scenario")) snprintf(r.scn, sizeof r.scn, "%s", val);
    else if (!strcmp(line, "class")) snprintf(r.cls, sizeof r.cls, "%s", val);
    else if (!strcmp(line, "message")) snprintf(r.msg, sizeof r.msg, "%s", val);
    else if (!strcmp(line, "seed")) r.seed = strtoull(val, nullptr, 10);
    else if (!strcmp(line, "hash")) r.hash = strtoull(val, nullptr, 16);
    else if (!strcmp(line, "steps")) r.steps = strtoull(val, nullptr, 10);
    else if (!strcmp(line, "weak")) r.weak = atoi(val);
    else if (!strcmp(line, "reuse")) r.reuse = atoi(val);
    else if (!strcmp(line, "scale")) r.scale = (u32)atoi(val);
    else {
      int k = !strcmp(line, "sched") ? 0 : !strcmp(line, "read") ? 1 : !strcmp(line, "fault") ? 2 : !strcmp(line, "work") ? 3 : -1;
      char *p = (char *)val;
      while (k >= 0 && *p) {
        char *e;
        u64 a = strtoull(p, &e, 10);
        if (e == p) break;
        p = e;
        if (k == 3)
          r.work.push((u32)a);
        else if (*p == ':') {
          ++p;
          r.d[k].push({a, (u32)strtoul(p, &p, 10)});
        }
        while (*p == ' ') ++p;
      }
    }
  }
  free(line);
  fclose(f);
  return true;
}

static void apply_replay(Replay &r) {
  S.replay = true;
  S.cfg = Cfg{};
  S.cfg.weak = r.weak;
  S.cfg.reuse = r.reuse;
  S.cfg.fault_scale = r.scale;
  S.cfg.spur_den = 4; // decision points exist; the outcomes come from the file
  S.cfg.cas_den = 4;
  for (int k = 0; k < K_NKIND; ++k) dev[k] = r.d[k];
  work_in = r.work;
}

// replay <lib> <file> [trace] [fair_after fair_budget]
static int cmd_replay(int c, char **v) {
  Replay r;
  if (!load_replay(v[1], r)) return 2;
  g_lib = v[0];
  S.trace = c > 2 && atoi(v[2]);
  if (c > 3) S.fair_base_after = strtoull(v[3], nullptr, 10);
  if (c > 4) S.fair_base_budget = strtoull(v[4], nullptr, 10);
  setup(v[0]);
  pick_scenario(r.scn);
  apply_replay(r);
  bool ok = run_once(r.seed, 0);
  wr(1, "{\"type\":\"held\",\"conclusive\":%d,\"steps\":%llu,\"hash\":\"%016llx\"}\n", (int)ok, (unsigned long long)S.steps, (unsigned long long)S.hash);
  return 0;
}

// seed <lib> <scenario> <seed> <replay-out|-> <weak> [trace fair_after fair_budget]
static int cmd_seed(int c, char **v) {
  g_lib = v[0];
  g_cfg_mask_weak = strtoull(v[4], nullptr, 10);
  if (strcmp(v[3], "-")) g_replay_out = v[3];
  S.trace = c > 5 && atoi(v[5]);
  if (c > 6) S.fair_base_after = strtoull(v[6], nullptr, 10);
  if (c > 7) S.fair_base_budget = strtoull(v[7], nullptr, 10);
  setup(v[0]);
  pick_scenario(v[1]);
  bool ok = run_once(strtoull(v[2], nullptr, 10), 0);
  wr(1, "{\"type\":\"held\",\"conclusive\":%d,\"steps\":%llu,\"hash\":\"%016llx\",\"weak\":%d}\n%.*s", (int)ok,
     (unsigned long long)S.steps, (unsigned long long)S.hash, (int)S.cfg.weak, (int)S.ndesc, S.desc);
  stats_json(1);
  return 0;
}

// ------------------------------------------------------------------------------------------------ minimiser

static u64 g_tries;
static double g_shrink_deadline;

// Run a candidate in a child; true if it fails with the same class.
static bool try_candidate(Replay &base, Vec<u32> &w, Vec<Dev> (&d)[K_NKIND], const char *out) {
  ++g_tries;
  int fds[2];
  if (pipe(fds)) return false;
  pid_t p = fork();
  if (p == 0) {
    close(fds[0]);
    g_result_fd = fds[1];
    g_replay_out = out;
    Replay r = base;
    r.work = w;
    for (int k = 0; k < K_NKIND; ++k) r.d[k] = d[k];
    apply_replay(r);
    run_once(r.seed, 0);
    _exit(0);
  }
  close(fds[1]);
  char buf[4096];
  size_t n = 0;
  for (;;) {
    ssize_t k = read(fds[0], buf + n, sizeof buf - 1 - n);
    if (k <= 0 || n >= sizeof buf - 2) break;
    n += (size_t)k;
  }
  close(fds[0]);
  buf[n] = 0;
  int st;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (!WIFEXITED(st) || WEXITSTATUS(st) != 3) return false;
  char want[128];
  snprintf(want, sizeof want, "\"class\":\"%s\"", base.cls);
  return strstr(buf, want) != nullptr;
}

template <class T>
static Vec<T> vcopy(Vec<T> const &a) {
  Vec<T> r;
  for (size_t i = 0; i < a.n; ++i) r.push(a.p[i]);
  return r;
}

template <class T>
static void ddmin(Vec<T> &cur, auto &&test) {
  size_t chunk = cur.n;
  while (chunk >= 1 && cur.n) {
    bool any = false;
    for (size_t i = 0; i < cur.n;) {
      if (wall() > g_shrink_deadline) return;
      Vec<T> c;
      for (size_t j = 0; j < cur.n; ++j)
        if (j < i || j >= i + chunk) c.push(cur.p[j]);
      if (test(c)) {
        free(cur.p);
        cur = c;
        any = true;
      } else {
        free(c.p);
        i += chunk;
      }
    }
    if (chunk == 1 && !any) break;
    if (chunk > 1)
      chunk = (chunk + 1) / 2;
    else if (!any)
      break;
  }
}

// shrink <lib> <in> <out> <seconds> [fair_after fair_budget]
static int cmd_shrink(int c, char **v) {
  Replay r;
  if (!load_replay(v[1], r)) return 2;
  g_lib = v[0];
  if (c > 4) S.fair_base_after = strtoull(v[4], nullptr, 10);
  if (c > 5) S.fair_base_budget = strtoull(v[5], nullptr, 10);
  setup(v[0]);
  pick_scenario(r.scn);
  g_shrink_deadline = wall() + atof(v[3]);
  char tmp[1100];
  snprintf(tmp, sizeof tmp, "%s.tmp", v[2]);
  Vec<u32> w = vcopy(r.work);
  Vec<Dev> d[K_NKIND];
  for (int k = 0; k < K_NKIND; ++k) d[k] = vcopy(r.d[k]);
  if (!try_candidate(r, w, d, tmp)) {
    wr(1, "{\"type\":\"shrink\",\"ok\":0}\n");
    return 5;
  }
  if (rename(tmp, v[2])) return 2;
  auto accept = [&](Vec<u32> &cw, Vec<Dev> (&cd)[K_NKIND]) {
    if (!try_candidate(r, cw, cd, tmp)) return false;
    return rename(tmp, v[2]) == 0;
  };
  for (int round = 0; round < 3 && wall() < g_shrink_deadline; ++round) {
    u64 size0 = w.n;
    for (auto &x : d) size0 += x.n;
    // faults, stale reads, then preemptions
    for (int k : {K_FAULT, K_READ, K_SCHED}) {
      ddmin(d[k], [&](Vec<Dev> &cand) {
        Vec<Dev> cd[K_NKIND];
        for (int q = 0; q < K_NKIND; ++q) cd[q] = q == k ? cand : d[q];
        return accept(w, cd);
      });
    }
    // workload: lower values, then cut the tail
    for (size_t i = 0; i < w.n && wall() < g_shrink_deadline; ++i) {
      u32 orig = w[i];
      if (!orig) continue;
      for (u32 t : {0u, orig / 2, orig - 1}) {
        if (t >= orig) continue;
        w[i] = t;
        if (accept(w, d)) {
          orig = t;
          if (t) --i;
          break;
        }
        w[i] = orig;
      }
    }
    u64 size1 = w.n;
    for (auto &x : d) size1 += x.n;
    if (size1 == size0) break;
  }
  unlink(tmp);
  wr(1, "{\"type\":\"shrink\",\"ok\":1,\"tries\":%llu,\"sched\":[%llu,%llu],\"read\":[%llu,%llu],\"fault\":[%llu,%llu],\"work\":%llu}\n",
     (unsigned long long)g_tries, (unsigned long long)r.d[0].n, (unsigned long long)d[0].n, (unsigned long long)r.d[1].n,
     (unsigned long long)d[1].n, (unsigned long long)r.d[2].n, (unsigned long long)d[2].n, (unsigned long long)w.n);
  return 0;
}

int main(int argc, char **argv) {
  setenv("HWLOC_COMPONENTS", "synthetic,stop", 0);
  setenv("HWLOC_PLUGINS_PATH", "/nonexistent", 1); // no dlopen of hwloc plugins
  if (argc < 3) return 2;
  int rc = 2;
  if (!strcmp(argv[1], "batch")) rc = cmd_batch(argc - 2, argv + 2);
  else if (!strcmp(argv[1], "replay")) rc = cmd_replay(argc - 2, argv + 2);
  else if (!strcmp(argv[1], "seed")) rc = cmd_seed(argc - 2, argv + 2);
  else if (!strcmp(argv[1], "shrink")) rc = cmd_shrink(argc - 2, argv + 2);
  fflush(stdout);
  _exit(rc);
}
