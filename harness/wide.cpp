// C01: a scope whose continuation is stolen more than 65535 times (specs/JoinCount.tla); --n=<forks>
#include "workers.hpp"
#include <cstring>
#include <string>

static int N;
static std::string prog;
void vp::setup(Args const &a) {
  prog = a.get("prog", "2/3/0");
  N = (int)strtol(strchr(prog.c_str(), '/') + 1, nullptr, 10);
}
void vp::finish() {}

struct Sh {
  std::atomic<int> progress{0}, done{0}, stolen{0};
};
static Sh *S;
static bool all_stolen;

inline constexpr auto child = [](auto, int i) -> lf::task<void> {
  if (all_stolen || vp::choose(2)) {
    struct Arg {
      int i;
    } a{i};
    vp::spin_until([](void *p) { return S->progress.load() > ((Arg *)p)->i; }, &a); // until our parent goes on without us
    (void)S->progress.load();
  }
  vp::point();
  S->done.fetch_add(1, std::memory_order_relaxed);
  co_return;
};
inline constexpr auto parent = [](auto, int n) -> lf::task<int> {
  for (int r = 0; r < 2; r++) {
    S->progress.store(0);
    S->done.store(0);
    for (int i = 0; i < n; i++) {
      std::thread::id me = std::this_thread::get_id();
      co_await lf::fork(child)(i);
      if (me != std::this_thread::get_id()) S->stolen.fetch_add(1, std::memory_order_relaxed);
      S->progress.store(i + 1);
    }
    co_await lf::join;
    vp::ev("j", n - S->done.load(std::memory_order_relaxed));
    n = n > 3 ? 3 : 1; // a second scope: the counters have been reset
  }
  co_return 1;
};

void vp::test() {
  vp::set_trace_tag(prog.c_str());
  all_stolen = N > 1000;
  {
    auto s = std::make_unique<Sh>();
    S = s.get();
    wk::run(prog[0] - '0', [&](wk::to_worker sch) { lf::sync_wait(sch, parent, N); });
    if (all_stolen && S->stolen.load() < 65536) vp::fault("harness", "only %d steals", S->stolen.load());
  }
  vp::ev("end");
}
