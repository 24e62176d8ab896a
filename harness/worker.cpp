// C22: registration of workers and submission to them (specs/Worker.tla); --threads --ops
#include "vprt.h"
#include <atomic>
#include <memory>
#include <new>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
#include "libfork/core.hpp"

static int T, nops, maxpend;
static std::string prog;
void vp::setup(Args const &a) {
  prog = a.get("prog", "2");
  T = atoi(prog.c_str());
  nops = (int)a.num("ops", 8);
  maxpend = (int)a.num("pend", 2);
}
void vp::finish() {}

enum { idle, init, fin, sub, pop, quit };
struct Mail {
  std::atomic<int> cmd{idle};
  int a = 0, f = -1, res = 0;
};
static Mail *mail;
static lf::worker_context *ctx[8]; // written by the thread itself, read after it reported
static std::atomic<int> *ran;
static int count[8];

struct to_worker {
  lf::worker_context *c;
  void schedule(lf::submit_handle h) { c->schedule(h); }
};
struct Note { // larger than any small buffer
  int t;
  long pad[12];
  void operator()() const {
    for (int i = 0; i < 12; i++)
      if (pad[i] != t * 100 + i) vp::fault("notify", "function of worker %d corrupted", t);
    vp::ev("y", vp::self(), t);
  }
};
static Note note(int t) {
  Note n{t, {}};
  for (int i = 0; i < 12; i++) n.pad[i] = t * 100 + i;
  return n;
}
inline constexpr auto work = [](auto) -> lf::task<int> {
  ran->fetch_add(1);
  count[vp::self()]++;
  co_return 1;
};

static void exec(int t, Mail &m) {
  switch (m.cmd.load()) {
    case init: {
      vp::ev("i", t, m.f >= 0);
      int r = 3;
      try {
        vp::fail_alloc_after(m.f);
        ctx[t] = lf::worker_init(note(t));
        r = 1;
      } catch (std::bad_alloc const &) {
        r = 2;
      } catch (std::runtime_error const &) {
        r = 0;
      }
      vp::fail_alloc_after(-1);
      vp::ev("I", t, r);
      if (r == 1)
        for (int u = 1; u <= T; u++)
          if (u != t && ctx[u] == ctx[t]) vp::fault("context", "shared by two threads");
      if (r == 1 && (!ctx[t] || lf::impl::tls::context() != ctx[t])) vp::fault("context", "is not the thread's");
      m.res = r;
      break;
    }
    case fin: {
      int r = 1;
      try {
        lf::finalize(ctx[m.a]);
      } catch (std::runtime_error const &) {
        r = 0;
      }
      vp::ev("f", t, m.a, r);
      m.res = r;
      break;
    }
    case sub: {
      vp::ev("s", t, m.a);
      auto f = lf::schedule(to_worker{ctx[m.a]}, work);
      vp::ev("S", t);
      f.detach();
      break;
    }
    case pop: {
      vp::ev("p", t);
      lf::submit_handle s = ctx[t]->try_pop_all();
      count[t] = 0;
      if (s) lf::resume(s);
      int k = count[t];
      vp::ev("P", t, k);
      m.res = k;
      break;
    }
  }
}
static void loop(int t) {
  Mail &m = mail[t];
  for (;;) {
    vp::spin_until([](void *p) { return ((Mail *)p)->cmd.load() != idle; }, &m);
    if (m.cmd.load() == quit) return;
    exec(t, m);
    m.cmd.store(idle);
  }
}
static void wait(int t) {
  vp::spin_until([](void *p) { return ((Mail *)p)->cmd.load() == idle; }, &mail[t]);
  (void)mail[t].cmd.load();
}

void vp::test() {
  vp::set_trace_tag(prog.c_str());
  auto m = std::make_unique<Mail[]>(8);
  auto r = std::make_unique<std::atomic<int>>(0);
  mail = m.get();
  ran = r.get();
  for (auto &c : ctx) c = nullptr;
  {
    std::vector<std::thread> th;
    for (int t = 1; t <= T; t++) th.emplace_back(loop, t);
    bool wk[8]{}, busy[8]{};
    int pend[8]{}, subs = 0;
    auto settle = [&] {
      for (int t = 1; t <= T; t++)
        if (busy[t]) wait(t), busy[t] = false;
    };
    auto issue = [&](int t, int c, int a, int f) {
      if (busy[t]) wait(t);
      mail[t].a = a;
      mail[t].f = f;
      mail[t].cmd.store(c);
      busy[t] = true;
    };
    auto sync = [&](int t, int c, int a, int f) {
      issue(t, c, a, f);
      settle();
      return mail[t].res;
    };
    for (int n = 0; n < nops; n++) {
      int t = 1 + vp::choose(T);
      switch (vp::choose(5)) {
        case 0:
        case 1: {
          settle();
          int f = vp::choose(3) ? -1 : vp::choose(6);
          if (sync(t, init, 0, f) == 1) wk[t] = true;
          break;
        }
        case 2: {
          int u = 1 + vp::choose(T);
          settle();
          if (!ctx[u]) break;
          if (t == u && wk[t]) {
            while (pend[t]) {
              sync(t, pop, 0, -1);
              pend[t] = 0;
            }
          }
          if (sync(t, fin, u, -1) == 1) wk[t] = false;
          break;
        }
        case 3: {
          int u = 1 + vp::choose(T);
          if (wk[t] || !wk[u] || pend[u] >= maxpend) break;
          pend[u]++;
          subs++;
          issue(t, sub, u, -1);
          break;
        }
        case 4: {
          if (!wk[t]) break;
          issue(t, pop, 0, -1);
          if (vp::choose(2)) {
            settle();
            sync(t, pop, 0, -1);
            pend[t] = 0;
          }
          break;
        }
      }
    }
    settle();
    for (int t = 1; t <= T; t++)
      if (wk[t]) {
        if (pend[t]) sync(t, pop, 0, -1);
        if (sync(t, fin, t, -1) != 1) vp::fault("finalize", "a worker cannot finalise");
      }
    if (ran->load() != subs) vp::fault("lost", "%d of %d submitted tasks ran", ran->load(), subs);
    for (int t = 1; t <= T; t++) mail[t].cmd.store(quit);
    for (auto &t : th) t.join();
  }
  vp::ev("end");
}
