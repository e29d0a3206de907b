// C22: worker placement on generated topologies.
#include "common.hpp"

#include <atomic>
#include <dlfcn.h>
#ifdef LF_USE_HWLOC
#include <hwloc.h>
#endif

namespace {

#ifdef LF_USE_HWLOC

// A uniform machine: levels outermost first, with NUMA memory attached at one of them (or at the top).
struct Machine {
  int packs, groups, cores, pus; // groups: L3 domains per package (1: none)
  int mem;                       // memory at: 0 machine, 1 package, 2 group
  bool has_packs;
  char text[128];
  bool on[64];       // processing units that are left (a partition of the machine, as a container sees it)
  int nodes_off;     // memories that are not available: bit set, 0: all are
  bool cpuless;      // memories without units stay
  int left;          // number of processing units left
  int total() const { return packs * groups * cores * pus; }
  bool regular() const { return left == total(); }
};
Machine H;

void gen_machine(int max_pus) {
  for (;;) {
    H.packs = 1 + static_cast<int>(sim_choose(4));
    H.groups = sim_choose(3) ? 1 : 1 + static_cast<int>(sim_choose(3));
    H.cores = 1 + static_cast<int>(sim_choose(4));
    H.pus = 1 + static_cast<int>(sim_choose(2));
    if (H.total() <= max_pus) break;
  }
  H.mem = static_cast<int>(sim_choose(3));
  if (H.mem == 2 && H.groups == 1) H.mem = 1;
  H.has_packs = sim_choose(5) != 0;
  if (!H.has_packs) { // L3 domains only
    H.groups *= H.packs, H.packs = 1;
    if (H.mem == 1) H.mem = 0;
  }
  char *p = H.text, *e = H.text + sizeof H.text;
  if (H.mem == 0) p += snprintf(p, static_cast<size_t>(e - p), "[numa] ");
  if (H.has_packs) p += snprintf(p, static_cast<size_t>(e - p), "pack:%d ", H.packs);
  if (H.mem == 1) p += snprintf(p, static_cast<size_t>(e - p), "[numa] ");
  if (H.groups > 1 || !H.has_packs) p += snprintf(p, static_cast<size_t>(e - p), "l3:%d ", H.groups);
  if (H.mem == 2) p += snprintf(p, static_cast<size_t>(e - p), "[numa] ");
  snprintf(p, static_cast<size_t>(e - p), "core:%d pu:%d", H.cores, H.pus);
  setenv("HWLOC_SYNTHETIC", H.text, 1);
  sim_describe("machine \"%s\" ", H.text);
  int const n = H.total();
  for (int i = 0; i < 64; ++i) H.on[i] = i < n;
  H.left = n;
  H.nodes_off = 0;
  if (n > 1 && sim_choose(3) == 0) { // processing units are missing
    u32 den = 2 + sim_choose(4);
    bool whole = sim_choose(3) == 0; // cores go as a whole
    for (int i = 0; i < n; ++i) {
      if (whole && i % H.pus) {
        H.on[i] = H.on[i - 1];
        continue;
      }
      H.on[i] = sim_choose(den) != 0;
    }
    H.left = 0;
    for (int i = 0; i < n; ++i) H.left += H.on[i];
    if (H.left == 0) H.on[sim_choose(static_cast<u32>(n))] = true, H.left = 1;
  }
  int mems = H.mem == 0 ? 1 : H.mem == 1 ? H.packs : H.packs * H.groups;
  if (mems > 1 && sim_choose(4) == 0) { // memories are missing
    H.nodes_off = static_cast<int>(sim_choose(1u << std::min(mems, 12)));
    if (H.nodes_off == (1 << mems) - 1) H.nodes_off = 0;
  }
  H.cpuless = sim_choose(2);
  if (!H.regular() || H.nodes_off) {
    char b[65];
    for (int i = 0; i < n; ++i) b[i] = H.on[i] ? '1' : '0';
    b[n] = 0;
    sim_describe("units %s memories missing %x ", b, H.nodes_off);
  }
}
int pack_of(int pu) { return pu / (H.groups * H.cores * H.pus); }
int group_of(int pu) { return pu / (H.cores * H.pus); } // machine wide
int core_of(int pu) { return pu / H.pus; }
int mem_of(int pu) {
  int m = H.mem == 0 ? 0 : H.mem == 1 ? pack_of(pu) : group_of(pu);
  return H.nodes_off >> m & 1 ? 99 : m; // 99: no memory of its own
}
/// Called when the library loads the topology: takes the missing parts away.
int restrict_machine(hwloc_topology_t t) {
  if (!H.regular()) {
    hwloc_bitmap_t c = hwloc_bitmap_alloc();
    for (int i = 0; i < H.total(); ++i)
      if (H.on[i]) hwloc_bitmap_set(c, static_cast<unsigned>(i));
    int r = hwloc_topology_restrict(t, c, H.cpuless ? 0 : HWLOC_RESTRICT_FLAG_REMOVE_CPULESS);
    hwloc_bitmap_free(c);
    if (r) return r;
  }
  if (H.nodes_off) {
    hwloc_bitmap_t c = hwloc_bitmap_dup(hwloc_topology_get_topology_nodeset(t));
    for (int i = 0; i < 31; ++i)
      if (H.nodes_off >> i & 1) hwloc_bitmap_clr(c, static_cast<unsigned>(i));
    int r = hwloc_bitmap_iszero(c) ? 0 : hwloc_topology_restrict(t, c, HWLOC_RESTRICT_FLAG_BYNODESET);
    if (hwloc_bitmap_iszero(c)) H.nodes_off = 0;
    hwloc_bitmap_free(c);
    if (r) return r;
  }
  return 0;
}
/// Height of the lowest common ancestor.
int height(int a, int b) {
  if (a == b) return 0;
  if (core_of(a) == core_of(b)) return 1;
  if (group_of(a) == group_of(b)) return 2;
  if (pack_of(a) == pack_of(b)) return 3;
  return 4;
}

void check_nodes(std::size_t n, lf::numa_strategy st, std::vector<lf::numa_topology::numa_node<int>> const &nodes,
                 std::vector<std::shared_ptr<int>> const &data) {
  if (nodes.size() != n) sim_fail("numa", "%zu places for %zu workers", nodes.size(), n);
  std::vector<int> pu(n), per_pack(static_cast<size_t>(H.packs), 0);
  int maxid = -1;
  for (std::size_t i = 0; i < n; ++i) {
    auto *set = nodes[i].cpup.get();
    if (!set || hwloc_bitmap_weight(set) != 1) sim_fail("numa", "worker %zu is not bound to exactly one processing unit", i);
    pu[i] = hwloc_bitmap_first(set);
    if (pu[i] < 0 || pu[i] >= H.total()) sim_fail("numa", "worker %zu is bound to processing unit %d of %d", i, pu[i], H.total());
    if (!H.on[pu[i]]) sim_fail("numa", "worker %zu is bound to processing unit %d, which is not available", i, pu[i]);
    per_pack[static_cast<size_t>(pack_of(pu[i]))]++;
    if (nodes[i].numa > static_cast<size_t>(1) << 20) sim_fail("numa", "NUMA id of worker %zu is %zu", i, nodes[i].numa);
    maxid = std::max(maxid, static_cast<int>(nodes[i].numa));
  }
  std::vector<int> mem_for(static_cast<size_t>(maxid) + 1, -1);
  for (std::size_t i = 0; i < n; ++i) {
    int &m = mem_for[nodes[i].numa];
    if (m >= 0 && m != mem_of(pu[i])) sim_fail("numa", "NUMA id %zu names two different memories", nodes[i].numa);
    m = mem_of(pu[i]);
  }
  for (std::size_t i = 0; i < mem_for.size(); ++i) {
    if (mem_for[i] < 0) sim_fail("numa", "NUMA ids are not dense: %zu of 0..%d is unused", i, maxid);
    for (std::size_t j = 0; j < i; ++j)
      if (mem_for[i] == mem_for[j]) sim_fail("numa", "NUMA ids %zu and %zu name the same memory", i, j);
  }
  for (std::size_t i = 0; i < n; ++i) {
    auto const &nb = nodes[i].neighbors;
    if (nb.empty() || nb[0].size() != 1 || nb[0][0] != data[i]) sim_fail("numa", "worker %zu does not see itself first", i);
    std::vector<int> seen(n, 0);
    int last = -1;
    for (std::size_t g = 1; g < nb.size(); ++g) {
      if (nb[g].empty()) sim_fail("numa", "worker %zu has an empty group of steal victims", i);
      int lo = 99, hi = -1;
      for (auto const &p : nb[g]) {
        std::size_t j = static_cast<std::size_t>(*p);
        if (j >= n || p != data[j] || j == i) sim_fail("numa", "worker %zu has an unknown steal victim", i);
        seen[j]++;
        lo = std::min(lo, height(pu[i], pu[j])), hi = std::max(hi, height(pu[i], pu[j]));
      }
      if (lo < last) sim_fail("numa", "worker %zu: group %zu holds a victim nearer than one of the group before", i, g);
      last = hi;
    }
    for (std::size_t j = 0; j < n; ++j)
      if (seen[j] != (j == i ? 0 : 1)) sim_fail("numa", "worker %zu sees worker %zu %d times among its victims", i, j, seen[j]);
  }
  // strategies
  std::vector<int> cores(static_cast<size_t>(H.packs), 0), units(static_cast<size_t>(H.packs), 0);
  for (int i = 0, c = -1; i < H.total(); ++i)
    if (H.on[i]) {
      units[static_cast<size_t>(pack_of(i))]++;
      if (core_of(i) != c) cores[static_cast<size_t>(pack_of(i))]++;
      c = core_of(i);
    }
  if (st == lf::numa_strategy::seq) {
    int need = 0, have = 0; // leading packages with enough cores
    while (need < H.packs && have < static_cast<int>(n)) have += cores[static_cast<size_t>(need++)];
    for (int p = need; p < H.packs; ++p)
      if (per_pack[static_cast<size_t>(p)]) sim_fail("numa", "seq put workers on package %d although %d package(s) are enough", p, need);
    if (H.regular())
      for (int p = 0; p < need; ++p)
        if (!per_pack[static_cast<size_t>(p)]) sim_fail("numa", "seq left package %d of the first %d empty", p, need);
  } else {
    for (int p = 0; p < H.packs; ++p) { // in proportion to the package's units, rounded
      int fair = static_cast<int>(n) * units[static_cast<size_t>(p)], got = per_pack[static_cast<size_t>(p)] * H.left;
      if (got - fair >= H.left || fair - got >= H.left)
        sim_fail("numa", "fan put %d of %zu workers on package %d, which has %d of %d processing units", per_pack[static_cast<size_t>(p)], n, p,
                 units[static_cast<size_t>(p)], H.left);
    }
  }
}

#else // the library was built without hwloc: one memory, every other worker equally far, nothing is bound

struct Machine {
  int units;
  int total() const { return units; }
} H;
void gen_machine(int max_pus) { H.units = 1 + static_cast<int>(sim_choose(static_cast<u32>(max_pus))); }

void check_nodes(std::size_t n, lf::numa_strategy, std::vector<lf::numa_topology::numa_node<int>> const &nodes,
                 std::vector<std::shared_ptr<int>> const &data) {
  if (nodes.size() != n) sim_fail("numa", "%zu places for %zu workers", nodes.size(), n);
  for (std::size_t i = 0; i < n; ++i) {
    auto const &nb = nodes[i].neighbors;
    if (nodes[i].numa != 0) sim_fail("numa", "worker %zu has NUMA id %zu without a topology", i, nodes[i].numa);
    if (nb.empty() || nb[0].size() != 1 || nb[0][0] != data[i]) sim_fail("numa", "worker %zu does not see itself first", i);
    std::vector<int> seen(n, 0);
    for (std::size_t g = 1; g < nb.size(); ++g) {
      if (nb[g].empty()) sim_fail("numa", "worker %zu has an empty group of steal victims", i);
      for (auto const &p : nb[g]) {
        std::size_t k = static_cast<std::size_t>(*p);
        if (k >= n || p != data[k] || k == i) sim_fail("numa", "worker %zu has an unknown steal victim", i);
        seen[k]++;
      }
    }
    for (std::size_t k = 0; k < n; ++k)
      if (seen[k] != (k == i ? 0 : 1)) sim_fail("numa", "worker %zu sees worker %zu %d times among its victims", i, k, seen[k]);
  }
}

#endif

#ifdef LF_USE_HWLOC
constexpr bool with_hwloc = true;
#else
constexpr bool with_hwloc = false;
#endif

void sc_distribute() {
  gen_machine(48);
  std::size_t n = 1 + sim_choose(static_cast<u32>(2 * H.total() + 3));
  if (sim_choose(2)) n = 1 + sim_choose(static_cast<u32>(H.total()));
  auto st = sim_choose(2) ? lf::numa_strategy::seq : lf::numa_strategy::fan;
  sim_describe("workers=%zu %s", n, st == lf::numa_strategy::seq ? "seq" : "fan");
  std::vector<std::shared_ptr<int>> data;
  for (std::size_t i = 0; i < n; ++i) data.push_back(std::make_shared<int>(static_cast<int>(i)));
  if (u32 k = sim_choose(4); k >= 2) { // faults first: the attempt must fail cleanly or succeed
    u32 den = 1u << (1 + sim_choose(7));
    std::vector<lf::numa_topology::numa_node<int>> nodes;
    std::int64_t a0 = sim_alloc_failures();
    (k == 2) ? void(with_hwloc && sim_hwloc_faults(den)) : sim_alloc_faults(den, 0);
    bool done = false;
    try {
      lf::numa_topology topo;
      nodes = topo.distribute(data, st);
      done = true;
    } catch (lf::hwloc_error const &) {
      if (!sim_hwloc_failures()) sim_fail("numa", "hwloc_error although nothing failed");
    } catch (std::bad_alloc const &) {
      if (sim_alloc_failures() == a0) sim_fail("alloc", "bad_alloc although nothing failed");
    }
    sim_hwloc_faults(0);
    sim_alloc_faults(0, 0);
    sim_cover(done ? "distribute_ok_under_faults" : "distribute_failed");
    if (done) check_nodes(n, st, nodes, data);
  }
  {
    std::vector<lf::numa_topology::numa_node<int>> nodes;
    {
      lf::numa_topology topo;
      SIM_CHECK("numa", static_cast<bool>(topo) == with_hwloc, "topology is %s", with_hwloc ? "empty although hwloc is enabled" : "not empty");
      nodes = topo.distribute(data, st);
    } // nodes share ownership of the topology
    check_nodes(n, st, nodes, data);
    for (auto const &nd : nodes) nd.bind();
    SIM_CHECK("numa", sim_bind_calls() == (with_hwloc ? n : 0), "%lu binding calls for %zu workers", sim_bind_calls(), n);
  }
  for (auto &d : data) SIM_CHECK("leak", d.use_count() == 1, "the distribution still owns a worker");
  if (n > 1) sim_nontrivial();
}

// ------------------------------------------------------------------------------------------------ steals reach everyone

std::atomic<int> *g_in;
int g_want;
std::atomic<u64> *g_who;

/// Finishes only once every worker of the pool is inside one of these: each worker must manage to steal.
inline constexpr auto meet = [](auto, int) -> lf::task<int> {
  g_who->fetch_or(1ull << sim_tid(), std::memory_order_relaxed);
  g_in->fetch_add(1, std::memory_order_relaxed);
  while (g_in->load(std::memory_order_relaxed) < g_want) sim_point();
  co_return 1;
};
inline constexpr auto meeting = [](auto, int n, int) -> lf::task<int> {
  std::vector<int> r(static_cast<size_t>(n), 0);
  for (int i = 0; i + 1 < n; ++i) co_await lf::fork(&r[static_cast<size_t>(i)], meet)(i);
  co_await lf::call(&r[static_cast<size_t>(n - 1)], meet)(n - 1);
  co_await lf::join;
  int s = 0;
  for (int x : r) s += x;
  co_return s;
};
/// The work starts on worker `w`.
inline constexpr auto from = [](auto, lf::worker_context *w, int n, int x) -> lf::task<int> {
  co_await lf::resume_on(w);
  co_return co_await lf::just(meeting)(n, x);
};

template <class Pool>
void meet_in(std::size_t n, lf::numa_strategy st) {
  if (with_hwloc && sim_choose(3) == 2) { // a pool that cannot be set up is an exception and nothing else
    sim_hwloc_faults(1u << (1 + sim_choose(5)));
    bool done = false;
    try {
      Pool pool(n, st);
      done = true;
      sim_hwloc_faults(0);
    } catch (lf::hwloc_error const &) {
      if (!sim_hwloc_failures()) sim_fail("numa", "hwloc_error although nothing failed");
    }
    sim_hwloc_faults(0);
    if (!done && sim_live_threads() != 1) sim_fail("numa", "%d threads were left behind by a pool that was not set up", sim_live_threads() - 1);
    sim_cover(done ? "pool_ok_under_faults" : "pool_failed");
  }
  std::size_t const binds = sim_bind_calls();
  Pool pool(n, st);
  SIM_CHECK("numa", sim_bind_calls() - binds == (with_hwloc ? n : 0), "%lu binding calls for %zu workers", sim_bind_calls() - binds, n);
  int rounds = 1 + static_cast<int>(sim_choose(3));
  for (int k = 0; k < rounds; ++k) {
    std::atomic<int> in{0};
    std::atomic<u64> who{0};
    g_in = &in, g_who = &who, g_want = static_cast<int>(n);
    auto ctx = contexts_of(pool);
    int r = lf::sync_wait(pool, from, ctx[sim_choose(static_cast<u32>(n))], static_cast<int>(n), k);
    if (r != static_cast<int>(n)) sim_fail("result", "meeting of %zu returned %d", n, r);
    if (__builtin_popcountll(who.load()) != static_cast<int>(n)) sim_fail("numa", "not every worker took part");
  }
  if (n > 1) sim_nontrivial();
}

void sc_meet() {
  gen_machine(16);
  std::size_t n = 1 + sim_choose(5);
  auto st = sim_choose(2) ? lf::numa_strategy::seq : lf::numa_strategy::fan;
  bool lazy = sim_choose(2);
  sim_describe("%s workers=%zu %s", lazy ? "lazy_pool" : "busy_pool", n, st == lf::numa_strategy::seq ? "seq" : "fan");
  if (lazy)
    meet_in<lf::lazy_pool>(n, st);
  else
    meet_in<lf::busy_pool>(n, st);
}

} // namespace

SimScenario sim_scenarios[] = {{"distribute", sc_distribute}, {"meet", sc_meet}, {nullptr, nullptr}};

#ifdef LF_USE_HWLOC
// The library loads its topology through this.
extern "C" int hwloc_topology_load(hwloc_topology_t t) {
  static int (*real)(hwloc_topology_t);
  if (!real) real = reinterpret_cast<int (*)(hwloc_topology_t)>(dlsym(RTLD_NEXT, "hwloc_topology_load"));
  if (sim_hwloc_fault("hwloc_topology_load_fail")) return -1;
  u32 const old = sim_hwloc_faults(0);
  int r = real(t);
  if (!r) r = restrict_machine(t);
  sim_hwloc_faults(old);
  return r;
}
#endif
