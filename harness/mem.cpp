// C23: live tasks, live leaves and memory of balanced computations (specs/Bounds.tla); --prog=<workers>/<depth>/<branching>/<size>/<reps>
#include "workers.hpp"
#include <cstring>
#include <string>

static std::string prog;
static int W, D, B, Z, R;
void vp::setup(Args const &a) {
  prog = a.get("prog", "2/3/2/0/3");
  if (sscanf(prog.c_str(), "%d/%d/%d/%d/%d", &W, &D, &B, &Z, &R) != 5) exit(2);
}
void vp::finish() {}

static int live, leaves; // written in one step of the scheduler
static long base;
static int lg(long bytes) {
  long pages = (bytes + 4095) / 4096;
  int k = 0;
  while ((1l << k) < pages) k++;
  return k;
}
struct Kids {
  int n = 0;
};
__attribute__((noinline)) static void born(Kids *up) {
  vp::ignore_begin();
  live++;
  if (!up || up->n++ > 0) leaves++;
  int a = live, b = leaves;
  vp::ignore_end();
  vp::ev("t", a);
  vp::ev("l", b);
  vp::ev("h", lg(vp::live_bytes() - base));
}
__attribute__((noinline)) static void dies(Kids *up) {
  vp::ignore_begin();
  live--;
  if (!up || --up->n > 0) leaves--;
  vp::ignore_end();
}
struct Alive {
  Kids *up;
  explicit Alive(Kids *u) : up(u) { born(u); }
  ~Alive() { dies(up); }
};
template <int N> struct node_t {
  auto operator()(auto node, Kids *up, int depth, int shape) const -> lf::task<long> {
    Alive al(up);
    Kids mine;
    volatile char data[N];
    data[0] = data[N - 1] = 1;
    vp::point();
    long v[4]{};
    if (depth > 1) {
      if (shape == 1) {
        auto [s] = co_await lf::co_new<char>(N);
        s[0] = s[N - 1] = 3;
        for (int i = 0; i < B; i++) co_await lf::fork(&v[i], node)(&mine, depth - 1, shape);
        co_await lf::join;
        v[0] += s[0] + s[N - 1] - 6;
      } else if (shape == 2) { // several scopes, the last child called
        for (int i = 0; i < B; i++) {
          if (i == B - 1) co_await lf::call(&v[i], node)(&mine, depth - 1, shape);
          else co_await lf::fork(&v[i], node)(&mine, depth - 1, shape);
          if (i % 2) co_await lf::join;
        }
        co_await lf::join;
      } else {
        for (int i = 0; i < B; i++) co_await lf::fork(&v[i], node)(&mine, depth - 1, i == 1 && shape == 3 ? 1 : shape);
        co_await lf::join;
      }
    }
    co_return v[0] + v[1] + v[2] + v[3] + 1;
  }
};
inline constexpr node_t<64> n0{};
inline constexpr node_t<3000> n1{};
inline constexpr node_t<20000> n2{};

void vp::test() {
  vp::set_trace_tag(prog.c_str());
  live = leaves = 0;
  long want = 0, p = 1;
  for (int i = 0; i < D; i++, p *= B) want += p;
  wk::run(W, [&](wk::to_worker s) {
    base = vp::live_bytes() - 4096l * W; // each worker has an initial stacklet
    for (int r = 0; r < R; r++) {
      int shape = vp::choose(4);
      wk::to_worker to{wk::ctx[vp::choose(W)]};
      long v = Z == 0 ? lf::sync_wait(to, n0, nullptr, D, shape) : Z == 1 ? lf::sync_wait(to, n1, nullptr, D, shape) : lf::sync_wait(to, n2, nullptr, D, shape);
      if (v != want) vp::fault("result", "%ld, not %ld", v, want);
      vp::ignore_begin();
      wk::settle(W);
      vp::ignore_end();
      vp::ev("r", lg(vp::live_bytes() - base));
    }
  });
  vp::ev("end");
}
