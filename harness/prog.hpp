// Interpreter: one libfork coroutine that runs fork-join programs given as data and reports what happens
// (specs/ForkJoin.tla describes the behaviours the events must follow).
//
// A program: <workers>/<root@worker+root@worker...>/<ops of task 0>,<ops of task 1>,...
// ops: F fork  T fork into try_eventually  C call  U call into try_eventually  Q just  S sync fork
//      O sync_outside fork  E eager_throw call  G eager_throw_outside call      (each followed by the child)
//      D fork, result discarded (child)
//      B<n> co_new of more than fits   J join   K join, exceptions caught   X<n> throw   R<w> resume on worker w   A<n> co_new n   a release
//      H an allocation of the next operation fails   Y scheduling point    L (first op) large frame    M (first op) huge frame
#pragma once
#include "vprt.h"
#include <atomic>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <memory>
#include <new>
#include <span>
#include <string>
#include <vector>
#include "libfork/core.hpp"

namespace fj {

constexpr int MAXT = 40, MAXC = 8;

struct Op {
  char k;
  int a;
};
struct Prog {
  std::string tag;
  int workers = 2;
  struct Root {
    int t, w; // w 0: any worker
    bool d;
  };
  std::vector<Root> roots;
  std::vector<std::vector<Op>> t;
  std::vector<int> size; // 0 small 1 large 2 huge
};

inline std::vector<Prog> progs;
inline Prog *P;

inline void parse_prog(std::string const &s) {
  Prog p;
  p.tag = s;
  char *q = (char *)s.c_str();
  p.workers = (int)strtol(q, &q, 10);
  q++;
  while (*q && *q != '/') {
    int t = (int)strtol(q, &q, 10), w = 1;
    if (*q == '@') w = (int)strtol(q + 1, &q, 10);
    bool d = *q == 'd'; // detached
    if (d) q++;
    p.roots.push_back({t, w, d});
    if (*q == '+') q++;
  }
  q++;
  p.t.emplace_back();
  p.size.push_back(0);
  while (*q) {
    if (*q == ',') {
      p.t.emplace_back();
      p.size.push_back(0);
      q++;
      continue;
    }
    Op o{*q++, 0};
    if (*q >= '0' && *q <= '9') o.a = (int)strtol(q, &q, 10);
    if (o.k == 'L') p.size.back() = 1;
    else if (o.k == 'M') p.size.back() = 2;
    p.t.back().push_back(o); // L and M stay in the op list (no effect) so that indices agree with the specification
  }
  progs.push_back(p);
}
inline void load_progs(vp::Args const &a) {
  if (const char *s = a.get("prog")) {
    parse_prog(s);
    return;
  }
  FILE *f = fopen(a.get("progfile", ""), "r");
  if (!f) {
    fprintf(stderr, "no program\n");
    exit(2);
  }
  char line[4096];
  while (fgets(line, sizeof line, f)) {
    std::string s(line);
    while (!s.empty() && (s.back() == '\n' || s.back() == ' ')) s.pop_back();
    if (!s.empty()) parse_prog(s);
  }
  fclose(f);
}

// ---- per execution state, in the tracked heap so that every access is checked for races ----
struct Shared {
  long started[MAXT]; // plain data written by each task
  long ended[MAXT];
  long exdata[64];
  int runs[MAXT];
  std::atomic<int> flag[10];
};
inline Shared *G;
inline lf::worker_context *ctxs[16];
inline int nctx;

__attribute__((noinline)) inline int me() {
  vp::ignore_begin();
  int r = 0;
  if (lf::impl::tls::has_context) {
    lf::worker_context *c = lf::impl::tls::context();
    for (int i = 0; i < nctx; i++)
      if (ctxs[i] == c) r = i + 1;
    if (nctx < 0) r = 1; // a single worker
  }
  vp::ignore_end();
  return r;
}

struct E {
  int id;
};
[[noreturn]] inline void throw_e(int id) {
  if (id != 60) G->exdata[id] = 1000 + id; // 60: thrown by constructors, possibly by several tasks
  throw E{id};
}
inline int catch_id(E const &e) {
  if (G->exdata[e.id] != 1000 + e.id) vp::fault("exception", "payload of exception %d is wrong", e.id);
  return e.id;
}

// descendants of t that have certainly finished when t's children have
inline void check_done(int t) {
  for (Op const &o : P->t[t])
    if (strchr("FTCUQSOEGD", o.k)) {
      if (G->started[o.a] == 0) continue; // never forked (control flow left early)
      if (G->ended[o.a] != G->started[o.a] + 1) vp::fault("join", "task %d had not finished", o.a);
      check_done(o.a);
    }
}

inline std::atomic<long> *live_objs;
struct Obj { // element type for co_new
  static inline thread_local int throw_after = -1;
  long a, b;
  Obj() {
    if (throw_after == 0) {
      throw_after = -1;
      throw_e(60);
    }
    if (throw_after > 0) throw_after--;
    a = (long)this ^ 0x55;
    b = 0;
    live_objs->fetch_add(1, std::memory_order_relaxed);
  }
  ~Obj() {
    if (a != ((long)this ^ 0x55)) vp::fault("object", "destroying an object that is not alive");
    a = 0;
    live_objs->fetch_sub(1, std::memory_order_relaxed);
  }
};

template <int N> struct Local {
  int t;
  int unc;
  long *buf;
  unsigned char data[N];
  explicit Local(int task) : t(task), unc(std::uncaught_exceptions()) {
    vp::fail_alloc_after(-1); // the frame has been allocated
    vp::region_enter(data, sizeof data);
    memset(data, task + 1, 16);
    data[N - 1] = (unsigned char)(task + 1);
    vp::ev("b", t, me());
    vp::point();
    if (G->runs[t]++) vp::fault("twice", "task %d runs twice", t);
    G->started[t] = 7 * t + 1;
  }
  void check() {
    if (data[0] != t + 1 || data[15] != t + 1 || data[N - 1] != (unsigned char)(t + 1)) vp::fault("frame", "local data of task %d corrupted", t);
  }
  ~Local() {
    check();
    if (G->ended[t]) vp::fault("twice", "task %d ends twice", t);
    G->ended[t] = 7 * t + 2;
    vp::region_exit(data);
    bool x = std::uncaught_exceptions() > unc;
    vp::ev(x ? "x" : "e", t, me());
  }
};

using slot_t = lf::try_eventually<long>;
inline long slot_value(slot_t &s) {
  if (s.has_value()) return *s;
  if (s.has_exception()) {
    try {
      std::rethrow_exception(s.exception());
    } catch (E const &e) {
      return 1000 * catch_id(e);
    }
  }
  return 0;
}

template <int N> struct node_t;
inline constexpr int SMALL = 24, LARGE = 3000, HUGE_ = 30000;

struct Allocs {
  using sa = lf::stack_allocated<Obj>;
  alignas(sa) unsigned char raw[3][sizeof(sa)];
  int n = 0;
  int t;
  explicit Allocs(int t) : t(t) {}
  std::span<Obj> top(int i = -1) { return std::launder((sa *)raw[i < 0 ? n - 1 : i])->get<0>(); }
  void fill(int t) {
    auto s = top();
    for (std::size_t i = 0; i < s.size(); i++) s[i].b = t * 100 + (long)i;
    if ((std::uintptr_t)s.data() % alignof(Obj)) vp::fault("align", "co_new memory is misaligned");
    if (!s.empty()) vp::region_enter(s.data(), s.size_bytes());
  }
  void check(int t) {
    for (int k = 0; k < n; k++) {
      auto s = top(k);
      for (std::size_t i = 0; i < s.size(); i++)
        if (s[i].b != t * 100 + (long)i || s[i].a != ((long)&s[i] ^ 0x55)) vp::fault("object", "co_new memory of task %d corrupted", t);
    }
  }
  void release(int t) {
    check(t);
    auto s = top();
    if (!s.empty()) vp::region_exit(s.data());
    --n;
    std::launder((sa *)raw[n])->~sa();
  }
  ~Allocs() {
    while (n) release(t);
  }
};

template <int N> struct node_t {
  auto operator()(auto self, int t) const -> lf::task<long>;
};

// await `expr` on the variant of the coroutine that the child asks for
#define FJ_SIZED(child, expr)                                                                                              \
  switch (P->size[child]) {                                                                                                \
    case 0: { constexpr node_t<SMALL> node{}; expr; } break;                                                               \
    case 1: { constexpr node_t<LARGE> node{}; expr; } break;                                                               \
    default: { constexpr node_t<HUGE_> node{}; expr; } break;                                                              \
  }

template <int N> auto node_t<N>::operator()(auto self, int t) const -> lf::task<long> {
  Local<N> L(t);
  long slot[MAXC] = {};
  slot_t ts[MAXC];
  int nslot = 0, nts = 0;
  Allocs al(t);
  auto const &ops = P->t[t];
  auto sum = [&] {
    long s = 0;
    for (int i = 0; i < nslot; i++) s += slot[i];
    for (int i = 0; i < nts; i++) s += slot_value(ts[i]);
    return s;
  };
  long total = 0;
  for (int i = 0; i < (int)ops.size(); i++) {
    int k = ops[i].a;
    try {
    switch (ops[i].k) {
      case 'H':
        vp::fail_alloc_after(0);
        continue;
      case 'F': {
        long *s = &slot[nslot++];
        FJ_SIZED(k, co_await lf::fork(s, node)(k));
        vp::ev("c", t, i, me());
        break;
      }
      case 'T': {
        slot_t *s = &ts[nts++];
        FJ_SIZED(k, co_await lf::fork(s, node)(k));
        vp::ev("c", t, i, me());
        break;
      }
      case 'C': {
        long *s = &slot[nslot++];
        FJ_SIZED(k, co_await lf::call(s, node)(k));
        vp::ev("r", t, i, me(), *s);
        break;
      }
      case 'U': {
        slot_t *s = &ts[nts++];
        FJ_SIZED(k, co_await lf::call(s, node)(k));
        vp::ev("r", t, i, me(), slot_value(*s));
        break;
      }
      case 'Q': {
        long v = 0;
        int x = -1;
        long *s = &slot[nslot++];
        try {
          FJ_SIZED(k, *s = co_await lf::just(node)(k));
        } catch (E const &e) {
          x = catch_id(e);
        }
        if (x < 0) vp::ev("r", t, i, me(), *s);
        else vp::ev("q", t, i, me(), x);
        break;
      }
      case 'S':
      case 'O': {
        int x = -1;
        bool b = false;
        long *s = &slot[nslot++];
        try {
          if (ops[i].k == 'S') {
            FJ_SIZED(k, b = co_await (lf::dispatch<lf::tag::fork, lf::modifier::sync>(s, node)(k)));
          } else {
            FJ_SIZED(k, b = co_await (lf::dispatch<lf::tag::fork, lf::modifier::sync_outside>(s, node)(k)));
          }
        } catch (E const &e) {
          x = catch_id(e);
        } catch (lf::exception_before_join const &) {
          x = 0;
        }
        if (x >= 0) vp::ev("q", t, i, me(), x);
        else if (b) vp::ev("s", t, i, me(), *s);
        else vp::ev("c", t, i, me());
        break;
      }
      case 'E':
      case 'G': {
        int x = -1;
        long *s = &slot[nslot++];
        try {
          if (ops[i].k == 'E') {
            FJ_SIZED(k, co_await (lf::dispatch<lf::tag::call, lf::modifier::eager_throw>(s, node)(k)));
          } else {
            FJ_SIZED(k, co_await (lf::dispatch<lf::tag::call, lf::modifier::eager_throw_outside>(s, node)(k)));
          }
        } catch (E const &e) {
          x = catch_id(e);
        } catch (lf::exception_before_join const &) {
          x = 0;
        }
        if (x >= 0) vp::ev("q", t, i, me(), x);
        else vp::ev("r", t, i, me(), *s);
        break;
      }
      case 'J':
      case 'K': {
        if (ops[i].k == 'J') {
          try {
            co_await lf::join;
          } catch (E const &e) {
            vp::ev("z", t, i, me(), catch_id(e), sum());
            check_done(t);
            throw;
          }
          vp::ev("j", t, i, me(), sum());
        } else {
          int x = -1;
          try {
            co_await lf::join;
          } catch (E const &e) {
            x = catch_id(e);
          }
          if (x < 0) vp::ev("j", t, i, me(), sum());
          else vp::ev("z", t, i, me(), x, sum());
        }
        check_done(t);
        break;
      }
      case 'X':
        throw_e(k);
        break;
      case 'R':
        co_await lf::resume_on(ctxs[k - 1]);
        vp::ev("n", t, i, me());
        break;
      case 'W':
        Obj::throw_after = k;
        break;
      case 'A': {
        int x = -1;
        try {
          ::new (al.raw[al.n]) Allocs::sa(co_await lf::co_new<Obj>((std::size_t)k));
        } catch (E const &e) {
          x = catch_id(e);
        }
        if (x >= 0) {
          vp::ev("q", t, i, me(), x);
        } else {
          al.n++;
          al.fill(t);
          vp::ev("a", t, i, me(), (long)al.top().size());
        }
        break;
      }
      case 'B': { // more than fits in memory
        std::size_t const big[] = {SIZE_MAX / sizeof(long) + 1, SIZE_MAX / sizeof(long) + 3, SIZE_MAX, SIZE_MAX / 2, SIZE_MAX / sizeof(long)};
        int x = -1;
        try {
          [[maybe_unused]] auto const &h = co_await lf::co_new<long>(big[k % 5]);
        } catch (std::bad_alloc const &) {
          x = 61;
        }
        if (x < 0) vp::fault("memory", "co_new of %zu longs succeeds", big[k % 5]);
        vp::ev("q", t, i, me(), x);
        break;
      }
      case 'a':
        al.release(t);
        vp::ev("l", t, i, me());
        break;
      case 'Z':
        try {
          throw_e(k);
        } catch (...) {
          self.stash_exception();
        }
        break;
      case 'Y':
        vp::point();
        break;
      case 'V':
        G->flag[k].store(1);
        vp::ev("v", t, i, me());
        break;
      case 'P':
        vp::spin_until([](void *f) { return ((std::atomic<int> *)f)->load() != 0; }, &G->flag[k]);
        vp::ev("p", t, i, me());
        break;
      default:
        break;
    }
    } catch (std::bad_alloc const &) {
      if (i == 0 || ops[i - 1].k != 'H') vp::fault("exception", "unexpected bad_alloc");
      vp::ev("q", t, i, me(), 61);
    }
    vp::fail_alloc_after(-1);
    L.check();
    al.check(t);
  }
  co_return sum() + t + 1;
}

} // namespace fj
