// C16: distribution of workers over machine topologies and stealing between them (specs/Numa.tla).
// Programs: <hwloc synthetic description, _ for blanks>[~<hex mask of usable PUs>]/<f|s>/<workers>[/s]
#include "vprt.h"
#include <algorithm>
#include <array>
#include <atomic>
#include <cstdlib>
#include <dlfcn.h>
#include <memory>
#include <string>
#include <thread>
#include <vector>
#include "libfork/schedule.hpp"

struct Prog {
  std::string tag, topo;
  unsigned long long mask = 0;
  bool seq, steal;
  int n;
};
static std::vector<Prog> progs;
static Prog *P;
static int bound_pu[vp::MAXT + 1];

// the machine: hwloc describes a synthetic one, and keeps its hands off the threads
extern "C" int hwloc_topology_load(hwloc_topology_t t) {
  static auto real = (int (*)(hwloc_topology_t))dlsym(RTLD_NEXT, "hwloc_topology_load");
  if (hwloc_topology_set_synthetic(t, P->topo.c_str())) return -1;
  int r = real(t);
  if (!r && P->mask) {
    hwloc_bitmap_t b = hwloc_bitmap_alloc();
    for (int i = 0; i < 64; i++)
      if (P->mask >> i & 1) hwloc_bitmap_set(b, i);
    r = hwloc_topology_restrict(t, b, 0);
    hwloc_bitmap_free(b);
  }
  return r;
}
extern "C" int hwloc_set_cpubind(hwloc_topology_t, hwloc_const_cpuset_t set, int) {
  bound_pu[vp::self()] = hwloc_bitmap_weight(set) == 1 ? hwloc_bitmap_first(set) : -1;
  return 0;
}

static void parse(std::string const &s) {
  Prog p;
  p.tag = s;
  size_t a = s.find('/');
  p.topo = s.substr(0, a);
  if (size_t m = p.topo.find('~'); m != std::string::npos) {
    p.mask = strtoull(p.topo.c_str() + m + 1, nullptr, 16);
    p.topo.resize(m);
  }
  std::replace(p.topo.begin(), p.topo.end(), '_', ' ');
  p.seq = s[a + 1] == 's';
  p.n = atoi(s.c_str() + a + 3);
  p.steal = s.find('/', a + 3) != std::string::npos;
  progs.push_back(p);
}
void vp::setup(Args const &a) {
  // hwloc keeps what it finds out about itself
  void *b = hwloc_bitmap_alloc();
  hwloc_bitmap_free((hwloc_bitmap_t)b);
  hwloc_topology_t t;
  parse("pu:1/f/1");
  P = &progs[0];
  hwloc_topology_init(&t);
  hwloc_topology_load(t);
  hwloc_topology_destroy(t);
  progs.clear();
  if (const char *s = a.get("prog")) return parse(s);
  FILE *f = fopen(a.get("progfile", ""), "r");
  if (!f) exit(2);
  char line[400];
  while (fgets(line, sizeof line, f)) {
    std::string s(line);
    while (!s.empty() && s.back() == '\n') s.pop_back();
    if (!s.empty()) parse(s);
  }
  fclose(f);
}
void vp::finish() {}

using groups = std::vector<std::vector<int>>;
static void tell(int i, groups g) {
  std::string s = "n " + std::to_string(i);
  for (auto &x : g) {
    std::sort(x.begin(), x.end()); // the order within a group is of no importance
    s += " /";
    for (int v : x) s += " " + std::to_string(v);
  }
  vp::ev(s.c_str());
}
template <typename Nodes, typename Id>
static void report(Nodes const &nodes, Id id) {
  for (size_t i = 0; i < nodes.size(); i++) {
    auto *set = nodes[i].cpup.get();
    if (!nodes[i].topo || !set || hwloc_bitmap_weight(set) != 1) vp::fault("handle", "of worker %zu is not one PU", i + 1);
    vp::ev("w", (long)i + 1, hwloc_bitmap_first(set), (long)nodes[i].numa);
  }
  vp::ev("placed");
  for (size_t i = 0; i < nodes.size(); i++) {
    groups g;
    for (auto &l : nodes[i].neighbors) {
      g.emplace_back();
      for (auto &x : l) g.back().push_back(id(x));
    }
    tell((int)i + 1, g);
  }
}

struct Nothing {};
using ctx_t = lf::impl::numa_context<Nothing>;

static void stealing(lf::numa_topology &topo, lf::numa_strategy st) {
  int n = P->n;
  auto share = std::make_shared<Nothing>();
  std::vector<std::shared_ptr<ctx_t>> ctx;
  lf::xoshiro rng{std::array<lf::xoshiro::result_type, 4>{(std::uint64_t)vp::choose(200) + 1, 2, 3, 4}};
  for (int i = 0; i < n; i++) {
    ctx.push_back(std::make_shared<ctx_t>(rng, share));
    rng.long_jump();
  }
  auto nodes = topo.distribute(ctx, st);
  report(nodes, [&](std::shared_ptr<ctx_t> const &p) { return int(std::find(ctx.begin(), ctx.end(), p) - ctx.begin()) + 1; });

  auto ready = std::make_unique<std::atomic<int>>(0);
  auto quit = std::make_unique<std::atomic<int>>(0);
  std::vector<std::thread> th;
  for (int i = 0; i < n; i++)
    th.emplace_back([&, i] {
      bound_pu[vp::self()] = -2;
      ctx[i]->init_worker_and_bind([] {}, nodes[i]);
      ready->fetch_add(1);
      vp::spin_until([](void *p) { return ((std::atomic<int> *)p)->load() != 0; }, quit.get());
      (void)quit->load();
      ctx[i]->finalize_worker();
    });
  vp::spin_until([](void *p) { return ((std::atomic<int> *)p)->load() == P->n; }, ready.get());
  (void)ready->load();
  for (int i = 1; i <= n; i++) vp::ev("b", i, bound_pu[i]);

  static char objs[vp::MAXT + 1][64]; // stand for tasks: nobody looks into them
  auto task = [](int v) { return reinterpret_cast<lf::task_handle>(&objs[v]); };
  auto push = [&](int v) { static_cast<lf::impl::full_context *>(ctx[v - 1]->get_underlying())->push(task(v)); };
  auto steal = [&](int t) {
    for (int k = 0; k < 100; k++)
      if (auto *h = ctx[t - 1]->try_steal()) return int((char(*)[64])(char *)h - objs);
    return 0;
  };
  // who has tasks
  int have[vp::MAXT + 1]{};
  for (int r = 0; r < 6; r++) {
    for (int v = 1; v <= n; v++)
      for (int k = vp::choose(3); k > 0; k--) push(v), have[v]++, vp::ev("k", v);
    for (;;) {
      int t = 1 + vp::choose(n), left = 0;
      for (int v = 1; v <= n; v++)
        if (v != t) left += have[v];
      if (!left && r % 3) break;
      int v = steal(t);
      vp::ev("s", t, v);
      if (v > 0) have[v]--;
      if (!v) break;
    }
    for (int t = 1; t <= n; t++) // the thief's own are left
      while (have[t]) {
        int u = t % n + 1;
        if (u == t) {
          if (!static_cast<lf::impl::full_context *>(ctx[0]->get_underlying())->pop()) vp::fault("lost", "a task");
          vp::ev("o", t);
          have[t]--;
          continue;
        }
        int v = steal(u);
        vp::ev("s", u, v);
        if (v != t) vp::fault("steal", "%d of %d got %d, there is %d", u, n, v, t);
        have[t]--;
      }
  }
  // how often: everyone but the closest has plenty
  const int M = 2500;
  for (int t = 1; t <= n; t += 2) {
    auto &nb = nodes[t - 1].neighbors;
    if (nb.size() < 3) continue;
    std::vector<int> far;
    for (size_t g = 2; g < nb.size(); g++)
      for (auto &p : nb[g]) far.push_back(int(std::find(ctx.begin(), ctx.end(), p) - ctx.begin()) + 1);
    for (int v : far)
      for (int k = 0; k < M; k++) push(v);
    int cnt[vp::MAXT + 1]{};
    for (int k = 0; k < M; k++) cnt[std::clamp(steal(t), 0, n)]++;
    if (cnt[0] || cnt[t]) vp::fault("steal", "nothing or one's own");
    std::string s = "f " + std::to_string(t);
    for (size_t g = 2; g < nb.size(); g++) { // <nearer groups are tried more often, and all of a group equally>
      int sum = 0, lo = M, hi = 0;
      for (auto &p : nb[g]) {
        int c = cnt[int(std::find(ctx.begin(), ctx.end(), p) - ctx.begin()) + 1];
        sum += c, lo = std::min(lo, c), hi = std::max(hi, c);
      }
      static int last;
      if (g == 2) last = M + 1;
      s += sum < last ? " -" : " +";
      last = sum;
      s += lo * 2 >= hi ? "=" : "#";
    }
    vp::ev(s.c_str());
    for (int v : far)
      while (static_cast<lf::impl::full_context *>(ctx[v - 1]->get_underlying())->pop()) {}
  }
  quit->store(1);
  for (auto &t : th) t.join();
}

void vp::test() {
  P = &progs[progs.size() > 1 ? vp::choose((int)progs.size()) : 0];
  vp::set_trace_tag(P->tag.c_str());
  {
    lf::numa_topology topo;
    lf::numa_strategy st = P->seq ? lf::numa_strategy::seq : lf::numa_strategy::fan;
    if (!topo) vp::fault("topology", "is empty");
    if (P->steal) {
      stealing(topo, st);
    } else if (P->n == 0) {
      try {
        (void)topo.split(0, st);
        vp::fault("split", "into nothing");
      } catch (lf::hwloc_error const &) {
        vp::ev("x");
      }
    } else {
      std::vector<std::shared_ptr<int>> d;
      for (int i = 1; i <= P->n; i++) d.push_back(std::make_shared<int>(i));
      report(topo.distribute(d, st), [](std::shared_ptr<int> const &p) { return *p; });
    }
  }
  vp::ev("end");
}
