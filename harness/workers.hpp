// Workers driven through libfork's extension API; run(W, f) starts W of them, runs f(scheduler) and stops them.
#pragma once
#include "vprt.h"
#include <atomic>
#include <memory>
#include <thread>
#include <vector>
#include "libfork/core.hpp"

namespace wk {

inline lf::worker_context *ctx[16];
inline std::atomic<bool> *stop_flag;
inline std::atomic<int> *ready_cnt;

inline long idles[16]; // how often each worker found nothing to do
__attribute__((noinline)) inline void idle(int w) {
  vp::ignore_begin();
  idles[w]++;
  vp::ignore_end();
}
inline long want_idle[16];
// wait until every worker has found nothing to do once more
inline void settle(int W) {
  for (int w = 0; w < W; w++) want_idle[w] = idles[w] + 2;
  vp::spin_until([](void *W) {
    for (int w = 0; w < (int)(long)W; w++)
      if (idles[w] < want_idle[w]) return false;
    return true;
  }, (void *)(long)W);
}

struct to_worker {
  lf::worker_context *c;
  void schedule(lf::submit_handle h) { c->schedule(h); }
};

inline void rendezvous(int n) {
  ready_cnt->fetch_add(1);
  vp::spin_until([](void *n) { return (long)ready_cnt->load() >= (long)n; }, (void *)(long)n);
  (void)ready_cnt->load();
}

inline void worker(int w, int W) {
  lf::worker_context *c = lf::worker_init([] {});
  ctx[w] = c;
  rendezvous(W + 1);
  for (;;) {
    if (lf::submit_handle s = c->try_pop_all()) {
      lf::resume(s);
      continue;
    }
    if (W > 1) {
      int v = W == 2 ? 1 - w : (w + 1 + vp::choose(W - 1)) % W;
      if (auto r = ctx[v]->try_steal()) {
        lf::resume(*r);
        continue;
      }
    }
    if (stop_flag->load(std::memory_order_acquire)) break;
    idle(w);
    vp::yield();
  }
  rendezvous(2 * W + 1); // nobody may steal from a context that has gone
  lf::finalize(c);
}

template <class F> void run(int W, F &&f) {
  auto st = std::make_unique<std::atomic<bool>>(false);
  auto rc = std::make_unique<std::atomic<int>>(0);
  stop_flag = st.get();
  ready_cnt = rc.get();
  {
    std::vector<std::thread> th;
    for (int w = 0; w < W; w++) th.emplace_back(worker, w, W);
    rendezvous(W + 1);
    f(to_worker{ctx[0]});
    st->store(true, std::memory_order_release);
    for (auto &t : th) t.join();
  }
}

} // namespace wk
