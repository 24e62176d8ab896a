// Fork-join programs on the library's own pools (POOL 1: busy_pool, 2: lazy_pool, 3: unit_pool).
#include "prog.hpp"
#include <random>
#include <thread>
#include <vector>
#include "libfork/schedule.hpp"

using namespace fj;

void vp::setup(Args const &a) { load_progs(a); }
void vp::finish() {}


#if POOL == 1
using pool_t = lf::busy_pool;
#elif POOL == 2
using pool_t = lf::lazy_pool;
#else
using pool_t = lf::unit_pool;
#endif
#ifndef STRATEGY
  #define STRATEGY lf::numa_strategy::fan
#endif

struct to_worker {
  lf::worker_context *c;
  void schedule(lf::submit_handle h) { c->schedule(h); }
};

static void root(pool_t &pool, Prog::Root r, std::vector<std::pair<int, lf::future<long>>> &fs, int i) {
  auto go = [&](auto &&sch) {
    if (r.d) {
      FJ_SIZED(r.t, lf::detach(sch, node, (int)r.t));
    } else {
      FJ_SIZED(r.t, fs.emplace_back(i, lf::schedule(sch, node, (int)r.t)));
    }
  };
#if POOL != 3
  if (r.w) {
    go(to_worker{ctxs[r.w - 1]});
    return;
  }
#endif
  go(pool);
}

static void use(Prog &p, pool_t &pool) {
  int W = p.workers;
#if POOL != 3
  if ((int)pool.contexts().size() != W) vp::fault("pool", "%zu contexts instead of %d", pool.contexts().size(), W);
  for (int w = 0; w < W; w++) {
    ctxs[w] = pool.contexts()[w];
    if (!ctxs[w]) vp::fault("pool", "null context");
    for (int v = 0; v < w; v++)
      if (ctxs[v] == ctxs[w]) vp::fault("pool", "two workers share a context");
  }
  nctx = W;
#else
  nctx = -1;
#endif
  if (vp::nthreads() - 1 < W) vp::fault("pool", "%d threads for %d workers", vp::nthreads() - 1, W);
  {
    std::vector<std::pair<int, lf::future<long>>> fs;
    fs.reserve(p.roots.size());
    for (int i = 0; i < (int)p.roots.size(); i++) {
#if POOL == 2
      if (vp::choose(4) == 1) vp::quiesce(3000); // most workers go to sleep
#endif
      root(pool, p.roots[i], fs, i);
    }
    for (auto &[i, f] : fs) {
      try {
        long v = f.get();
        vp::ev("R", i + 1, v);
      } catch (E const &e) {
        vp::ev("Z", i + 1, catch_id(e));
      }
      if (!G->ended[p.roots[i].t]) vp::fault("future", "get() returned before root %d ended", i);
      check_done(p.roots[i].t);
    }
  }
#if POOL == 2
  if (vp::choose(4) == 1) {
    vp::quiesce(60000);
    int k = 0;
    for (int t = 1; t < vp::nthreads(); t++) k += vp::is_blocked(t);
    vp::ev("rest", k);
  }
#endif
}

void vp::test() {
  P = &progs[progs.size() > 1 ? vp::choose((int)progs.size()) : 0];
  vp::set_trace_tag(P->tag.c_str());
  {
    auto g = std::make_unique<Shared>();
    G = g.get();
    G->exdata[60] = 1060;
    auto lo = std::make_unique<std::atomic<long>>(0);
    live_objs = lo.get();
    nctx = 0;
    {
#if POOL == 3
      auto pool = std::make_unique<pool_t>();
      if (vp::choose(8) == 1) pool = std::make_unique<pool_t>();
#else
      auto pool = std::make_unique<pool_t>((std::size_t)P->workers, STRATEGY);
#endif
      use(*P, *pool);
    }
    if (live_objs->load()) vp::fault("object", "%ld co_new objects not destroyed", live_objs->load());
    for (auto r : P->roots) {
      if (!G->ended[r.t]) vp::fault("pool", "destroyed before root %d was done", r.t);
      check_done(r.t);
    }
  }
  vp::ev("end");
}
