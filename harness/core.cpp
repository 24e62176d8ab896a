// Fork-join programs on workers driven through libfork's extension API (the scheduler is this file).
#include "prog.hpp"
#include <thread>
#include <vector>

using namespace fj;

void vp::setup(Args const &a) { load_progs(a); }
void vp::finish() {}

struct to_worker {
  lf::worker_context *c;
  void schedule(lf::submit_handle h) { c->schedule(h); }
};

static std::atomic<bool> *stop_flag;
static std::atomic<int> *ready_cnt;

static void worker(int w, int W) {
  lf::worker_context *c = lf::worker_init([] {});
  ctxs[w] = c;
  ready_cnt->fetch_add(1);
  vp::spin_until([](void *n) { return (long)ready_cnt->load() >= (long)n; }, (void *)(long)(W + 1));
  (void)ready_cnt->load();
  for (;;) {
    if (lf::submit_handle s = c->try_pop_all()) {
      lf::resume(s);
      continue;
    }
    if (W > 1) {
      int v = W == 2 ? 1 - w : (w + 1 + vp::choose(W - 1)) % W;
      if (auto r = ctxs[v]->try_steal()) {
        lf::resume(*r);
        continue;
      }
    }
    if (stop_flag->load(std::memory_order_acquire)) break;
    vp::yield();
  }
  // nobody may steal from a context that has gone
  ready_cnt->fetch_add(1);
  vp::spin_until([](void *n) { return (long)ready_cnt->load() >= (long)n; }, (void *)(long)(2 * W + 1));
  (void)ready_cnt->load();
  lf::finalize(c);
}

void vp::test() {
  P = &progs[progs.size() > 1 ? vp::choose((int)progs.size()) : 0];
  vp::set_trace_tag(P->tag.c_str());
  int W = P->workers;
  {
    auto g = std::make_unique<Shared>();
    G = g.get();
    G->exdata[60] = 1060;
    auto st = std::make_unique<std::atomic<bool>>(false);
    auto rc = std::make_unique<std::atomic<int>>(0);
    auto lo = std::make_unique<std::atomic<long>>(0);
    stop_flag = st.get();
    ready_cnt = rc.get();
    live_objs = lo.get();
    nctx = W;
    std::vector<std::thread> th;
    for (int w = 0; w < W; w++) th.emplace_back(worker, w, W);
    rc->fetch_add(1);
    vp::spin_until([](void *n) { return (long)ready_cnt->load() >= (long)n; }, (void *)(long)(W + 1));
    (void)ready_cnt->load();
    {
      std::vector<lf::future<long>> fs;
      fs.reserve(P->roots.size());
      for (auto [t, w, d] : P->roots) {
        to_worker s{ctxs[w - 1]};
        FJ_SIZED(t, fs.push_back(lf::schedule(s, node, t)));
      }
      for (std::size_t i = 0; i < fs.size(); i++) {
        try {
          long v = fs[i].get();
          vp::ev("R", (long)i + 1, v);
        } catch (E const &e) {
          vp::ev("Z", (long)i + 1, catch_id(e));
        }
        if (!G->ended[P->roots[i].t]) vp::fault("future", "get() returned before root %zu ended", i);
        check_done(P->roots[i].t);
      }
    }
    st->store(true, std::memory_order_release);
    for (auto &t : th) t.join();
    if (live_objs->load()) vp::fault("object", "%ld co_new objects not destroyed", live_objs->load());
    nctx = 0;
  }
  vp::ev("end");
}
