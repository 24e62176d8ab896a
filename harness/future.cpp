// Root submission and futures (specs/Future.tla).
// program: <workers>/<ops of client 1>+<ops of client 2>   ops separated by dots:
//   s<slot><v|t|n|x|m<k>>  w<slot> g<slot> d<slot> v<slot> x<slot> m<to><from>  S<v|t|n|x|m<k>>  D<v|t|n|x|m<k>>
// all futures of a client have the same type: long, void, long & or a move-only type, chosen per execution
#include "workers.hpp"
#include <cstring>
#include <optional>
#include <string>

struct Op {
  char k;
  int a, c, n; // slot, second slot, failing allocation
  char b;
};
struct Prog {
  std::string tag;
  int W;
  std::vector<std::vector<Op>> cl;
};
static std::vector<Prog> progs;
static Prog *P;

static void parse(std::string const &s) {
  Prog p;
  p.tag = s;
  char *q = (char *)s.c_str();
  p.W = (int)strtol(q, &q, 10);
  q++;
  p.cl.emplace_back();
  while (*q) {
    if (*q == '+') {
      p.cl.emplace_back();
      q++;
      continue;
    }
    if (*q == '.') {
      q++;
      continue;
    }
    Op o{*q++, 0, 0, 0, 0};
    if (o.k == 'm') {
      o.a = *q++ - '0';
      o.c = *q++ - '0';
    } else {
      if (o.k != 'S' && o.k != 'D') o.a = *q++ - '0';
      if (o.k == 's' || o.k == 'S' || o.k == 'D') {
        o.b = *q++;
        if (o.b == 'm') o.n = (int)strtol(q, &q, 10);
      }
    }
    p.cl.back().push_back(o);
  }
  progs.push_back(p);
}
void vp::setup(Args const &a) {
  if (const char *s = a.get("prog")) return parse(s);
  FILE *f = fopen(a.get("progfile", ""), "r");
  if (!f) exit(2);
  char line[400];
  while (fgets(line, sizeof line, f)) {
    std::string s(line);
    while (!s.empty() && s.back() == '\n') s.pop_back();
    if (!s.empty()) parse(s);
  }
  fclose(f);
}
void vp::finish() {}

struct E {
  int c, i;
};
// what a root writes, plainly, before it ends: visible to whoever waited for it
struct Shared {
  long eff[3][16];
  long obj[3][16];
  std::atomic<int> submitted{0}, finished{0};
};
static Shared *G;

struct refuse {
  void schedule(lf::submit_handle) { throw 42; }
};

// the value depends on the root: 1000 c + i
struct body {
  static void run(int c, int i, char b) {
    vp::ev("b", c, i);
    vp::point();
    if (b == 'n') {
      bool rejected = false;
      try {
        wk::to_worker s{wk::ctx[0]};
        auto f = lf::schedule(s, [](auto) -> lf::task<> { co_return; });
      } catch (lf::schedule_in_worker const &) {
        rejected = true;
      }
      if (rejected) vp::ev("n", c, i);
      else vp::fault("nested", "scheduling from a worker was not rejected");
    }
    G->eff[c][i] = 7;
    vp::ev("e", c, i);
    G->finished.fetch_add(1, std::memory_order_relaxed);
    if (b == 't') throw E{c, i};
  }
};
struct leaf {
  auto operator()(auto, int) const -> lf::task<int> { co_return 1; }
};
#define SOME_TASKS()                                                                                                       \
  int r_[2] = {0, 0};                                                                                                      \
  co_await lf::fork(&r_[0], leaf{})(1);                                                                                    \
  co_await lf::fork(&r_[1], leaf{})(1);                                                                                    \
  co_await lf::join;                                                                                                       \
  if (r_[0] + r_[1] != 2) vp::fault("join", "a child had not finished");

struct r_long {
  auto operator()(auto, int c, int i, char b) const -> lf::task<long> {
    SOME_TASKS();
    body::run(c, i, b);
    co_return 1000 * c + i;
  }
};
struct r_void {
  auto operator()(auto, int c, int i, char b) const -> lf::task<> {
    SOME_TASKS();
    body::run(c, i, b);
  }
};
struct r_ref {
  auto operator()(auto, int c, int i, char b) const -> lf::task<long &> {
    SOME_TASKS();
    body::run(c, i, b);
    G->obj[c][i] = 1000 * c + i;
    co_return G->obj[c][i];
  }
};
struct r_uniq {
  auto operator()(auto, int c, int i, char b) const -> lf::task<std::unique_ptr<long>> {
    SOME_TASKS();
    body::run(c, i, b);
    co_return std::make_unique<long>(1000 * c + i);
  }
};

template <class R> static void show(int c, int pc, R &&v) {
  long x = 0;
  using T = std::decay_t<R>;
  if constexpr (std::is_same_v<T, std::unique_ptr<long>>) x = *v;
  else x = v;
  vp::ev("g", c, pc, x / 1000, x % 1000);
}

template <class Root, class R> static void client(int c, std::vector<Op> const &ops) {
  using Fut = lf::future<R>;
  std::optional<Fut> sl[5];
  auto get = [&](Fut &f, int pc, int own_) {
    try {
      if constexpr (std::is_void_v<R>) {
        f.get();
        vp::ev("g", c, pc, c, own_);
      } else if constexpr (std::is_reference_v<R>) {
        long &v = f.get();
        if (&v < &G->obj[0][0] || &v >= &G->obj[0][0] + 48) vp::fault("future", "get() refers to another object");
        show(c, pc, v);
      } else {
        show(c, pc, f.get());
      }
    } catch (E const &e) {
      vp::ev("t", c, pc, e.c, e.i);
      if (G->eff[e.c][e.i] != 7) vp::fault("future", "effects missing");
    } catch (lf::broken_future const &) {
      vp::ev("broken", c, pc);
    } catch (lf::empty_future const &) {
      vp::ev("empty", c, pc);
    }
  };
  std::vector<int> own(5, 0); // root in the slot
  for (int i = 1; i <= (int)ops.size(); i++) {
    Op const &o = ops[i - 1];
    switch (o.k) {
      case 's':
      case 'S':
      case 'D': {
        vp::ev("s", c, i);
        if (o.b != 'x') G->submitted.fetch_add(1, std::memory_order_relaxed);
        bool ok = false;
        if (o.b == 'm') vp::fail_alloc_after(o.n);
        try {
          wk::to_worker w{wk::ctx[(c + i) % P->W]};
          if (o.k == 's') {
            auto f = o.b == 'x' ? lf::schedule(refuse{}, Root{}, c, i, o.b) : lf::schedule(w, Root{}, c, i, o.b);
            vp::fail_alloc_after(-1);
            if (!f.valid()) vp::fault("future", "schedule returned an invalid future");
            sl[o.a].emplace(std::move(f));
            if (f.valid()) vp::fault("future", "a moved-from future is valid");
            own[o.a] = i;
            ok = true;
          } else if (o.k == 'D') {
            if (o.b == 'x') lf::detach(refuse{}, Root{}, c, i, o.b);
            else lf::detach(w, Root{}, c, i, o.b);
            vp::fail_alloc_after(-1);
            ok = true;
          } else {
            if constexpr (std::is_void_v<R>) {
              o.b == 'x' ? lf::sync_wait(refuse{}, Root{}, c, i, o.b) : lf::sync_wait(w, Root{}, c, i, o.b);
              vp::fail_alloc_after(-1);
              vp::ev("g", c, i, c, i);
            } else {
              R v = o.b == 'x' ? lf::sync_wait(refuse{}, Root{}, c, i, o.b) : lf::sync_wait(w, Root{}, c, i, o.b);
              vp::fail_alloc_after(-1);
              show(c, i, v);
            }
            if (G->eff[c][i] != 7) vp::fault("future", "effects missing");
          }
        } catch (int) {
          vp::ev("sx", c, i);
        } catch (std::bad_alloc const &) {
          G->submitted.fetch_sub(1, std::memory_order_relaxed);
          vp::ev("sm", c, i);
        } catch (E const &e) {
          vp::ev("t", c, i, e.c, e.i);
        }
        vp::fail_alloc_after(-1);
        if (ok) vp::ev("h", c, i);
        break;
      }
      case 'w':
        if (!sl[o.a]) {
          vp::ev("broken", c, i);
          break;
        }
        try {
          sl[o.a]->wait();
          vp::ev("w", c, i);
          if (own[o.a] && G->eff[c][own[o.a]] != 7) vp::fault("future", "effects missing");
        } catch (lf::broken_future const &) {
          vp::ev("broken", c, i);
        }
        break;
      case 'g':
        if (!sl[o.a]) vp::ev("broken", c, i);
        else get(*sl[o.a], i, own[o.a]);
        break;
      case 'd':
        if (sl[o.a]) sl[o.a]->detach();
        vp::ev("d", c, i);
        own[o.a] = 0;
        break;
      case 'v':
        vp::ev("v", c, i, sl[o.a] && sl[o.a]->valid());
        break;
      case 'x':
        sl[o.a].reset();
        vp::ev("x", c, i);
        if (own[o.a] && G->eff[c][own[o.a]] != 7) vp::fault("future", "effects missing");
        own[o.a] = 0;
        break;
      case 'm':
        if (sl[o.c]) {
          if (sl[o.a]) *sl[o.a] = std::move(*sl[o.c]);
          else sl[o.a].emplace(std::move(*sl[o.c]));
        } else
          sl[o.a].reset();
        vp::ev("m", c, i);
        own[o.a] = own[o.c];
        own[o.c] = 0;
        break;
    }
  }
  for (auto &s : sl) s.reset();
  vp::ev("z", c);
}

static void any_client(int kind, int c, std::vector<Op> const &ops) {
  switch (kind) {
    case 0: return client<r_long, long>(c, ops);
    case 1: return client<r_void, void>(c, ops);
    case 2: return client<r_ref, long &>(c, ops);
    default: return client<r_uniq, std::unique_ptr<long>>(c, ops);
  }
}

void vp::test() {
  P = &progs[progs.size() > 1 ? vp::choose((int)progs.size()) : 0];
  vp::set_trace_tag(P->tag.c_str());
  int kind = vp::choose(4);
  {
    auto g = std::make_unique<Shared>();
    G = g.get();
    wk::run(P->W, [&](wk::to_worker) {
      {
        std::vector<std::thread> th;
        for (std::size_t c = 1; c < P->cl.size(); c++) th.emplace_back([&, c] { any_client((kind + (int)c) % 4, (int)c + 1, P->cl[c]); });
        any_client(kind, 1, P->cl[0]);
        for (auto &t : th) t.join();
      }
      vp::spin_until([](void *) { return G->finished.load() == G->submitted.load(); }, nullptr); // detached roots
    });
  }
  vp::ev("end");
}
