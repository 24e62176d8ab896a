// for_each, map, fold, scan (specs/Algo.tla).  -DALG='E','M','F','S'  -DFUN=0 regular 1 async  -DPROJ=0 none 1 regular 2 async
// program: <alg>:<n>:<chunk, 0 for the overload without>:<form>:<workers>:<specials>
//   form: i iterators, s iterator and sentinel, r range; capital letter: in place (map, scan)
//   specials: x<i> application to i (fold/scan: combination at boundary i) throws, y<i> projection of i throws, k<i> application to i gets stuck
//             q<k> the k-th copy of the function object throws
#include "workers.hpp"
#include "libfork/algorithm/fold.hpp"
#include "libfork/algorithm/for_each.hpp"
#include "libfork/algorithm/map.hpp"
#include "libfork/algorithm/scan.hpp"
#include <compare>
#include <cstring>
#include <iterator>
#include <optional>
#include <string>

struct Prog {
  std::string tag;
  int n, c, form, W;
  bool inpl;
  std::vector<int> x, y, k;
  int q = 0;
};
static std::vector<Prog> progs;
static Prog *P;

static void parse(std::string const &s) {
  Prog p;
  p.tag = s;
  char form;
  char spec[200] = "";
  sscanf(s.c_str() + 2, "%d:%d:%c:%d:%199s", &p.n, &p.c, &form, &p.W, spec);
  p.inpl = form < 'a';
  p.form = form | 32;
  for (char *q = spec; *q;) {
    char t = *q++;
    int v = (int)strtol(q, &q, 10);
    if (t == 'q') p.q = v;
    else (t == 'x' ? p.x : t == 'y' ? p.y : p.k).push_back(v);
  }
  progs.push_back(p);
}
void vp::setup(Args const &a) {
  if (const char *s = a.get("prog")) return parse(s);
  FILE *f = fopen(a.get("progfile", ""), "r");
  if (!f) exit(2);
  char line[400];
  while (fgets(line, sizeof line, f)) {
    std::string s(line);
    while (!s.empty() && s.back() == '\n') s.pop_back();
    if (!s.empty()) parse(s);
  }
  fclose(f);
}
void vp::finish() {}

struct E {
  int id;
};
static bool in(std::vector<int> const &v, int i) {
  for (int x : v)
    if (x == i) return true;
  return false;
}

// An element: for for_each and map {index, value}, for fold and scan the interval {lo, hi} (an unprojected one is {i, -2}).
// Moved-from elements are recognisable; assignments are counted.
struct Elt {
  long a = -9, b = -9;
  int w = 0;
  Elt() = default;
  Elt(long a, long b) : a(a), b(b) {}
  Elt(Elt const &o) : a(o.a), b(o.b) {}
  Elt(Elt &&o) noexcept : a(o.a), b(o.b) { o.a = o.b = -1; }
  Elt &operator=(Elt const &o) {
    long x = o.a, y = o.b;
    a = x, b = y, w++;
    return *this;
  }
  Elt &operator=(Elt &&o) noexcept {
    long x = o.a, y = o.b;
    o.a = o.b = -1;
    a = x, b = y, w++;
    return *this;
  }
};

// a random access iterator that knows the array it belongs to
struct It {
  using value_type = Elt;
  using difference_type = std::ptrdiff_t;
  Elt *p = nullptr;
  Elt *lo = nullptr, *hi = nullptr;
  Elt &at(Elt *q) const {
    if (q < lo || q >= hi) vp::fault("range", "element %ld accessed outside the %ld of the range", (long)(q - lo), (long)(hi - lo));
    return *q;
  }
  Elt &operator*() const { return at(p); }
  Elt *operator->() const { return &at(p); }
  Elt &operator[](std::ptrdiff_t d) const { return at(p + d); }
  It &operator++() { ++p; return *this; }
  It operator++(int) { It r = *this; ++p; return r; }
  It &operator--() { --p; return *this; }
  It operator--(int) { It r = *this; --p; return r; }
  It &operator+=(std::ptrdiff_t d) { p += d; return *this; }
  It &operator-=(std::ptrdiff_t d) { p -= d; return *this; }
  friend It operator+(It i, std::ptrdiff_t d) { i.p += d; return i; }
  friend It operator+(std::ptrdiff_t d, It i) { i.p += d; return i; }
  friend It operator-(It i, std::ptrdiff_t d) { i.p -= d; return i; }
  friend std::ptrdiff_t operator-(It const &x, It const &y) { return x.p - y.p; }
  friend bool operator==(It const &x, It const &y) { return x.p == y.p; }
  friend auto operator<=>(It const &x, It const &y) { return x.p <=> y.p; }
};
struct Sent {
  Elt *e = nullptr;
  Sent() = default;
  Sent(Elt *e) : e(e) {}
  Sent(It const &i) : e(i.p) {} // fold and scan split their range and expect to get a sentinel from an iterator
  friend bool operator==(It const &i, Sent const &s) { return i.p == s.e; }
  friend std::ptrdiff_t operator-(It const &i, Sent const &s) { return i.p - s.e; }
  friend std::ptrdiff_t operator-(Sent const &s, It const &i) { return s.e - i.p; }
};
static_assert(std::random_access_iterator<It>);
static_assert(std::sized_sentinel_for<Sent, It>);
struct Range {
  It b, e;
  It begin() const { return b; }
  It end() const { return e; }
};

static std::atomic<int> *ncopy, *ndone, *nstuck, *nrel;
static long *hits;

#define NEST 1
struct leaf_t {
  auto operator()(auto, int) const -> lf::task<int> { co_return 1; }
};
// async functions fork something of their own
#define FORKS()                                                                                                            \
  {                                                                                                                        \
    int r = 0;                                                                                                             \
    co_await lf::fork(&r, leaf_t{})(1);                                                                                    \
    co_await lf::join;                                                                                                     \
    if (r != 1) vp::fault("nested", "result of a nested task missing");                                                   \
  }

#if FUN == 1
  #define FN auto operator()(auto self,
  #define FRET(T) -> lf::task<T>
  #define RET co_return
#else
  #define FN auto operator()(
  #define FRET(T) -> T
  #define RET return
#endif

// ---- projection ----
#if PROJ == 2
  #define PN auto operator()(auto self,
  #define PRET(T) -> lf::task<T>
  #define PR co_return
#else
  #define PN auto operator()(
  #define PRET(T) -> T
  #define PR return
#endif
struct Proj {
  Proj() = default;
#if ALG == 'E' // a projection to a reference
  PN Elt &e) const PRET(Elt &) {
#elif PROJ == 2
  PN Elt e) const PRET(Elt) {
#else
  PN Elt const &e) const PRET(Elt) {
#endif
    vp::point();
    int i = (int)e.a;
#if ALG == 'F' || ALG == 'S'
    if (e.b != -2) vp::fault("projection", "projection of something that is not an input element: %ld %ld", e.a, e.b);
#endif
#if PROJ == 2
    if (i % 3 == 1) FORKS();
#endif
    if (in(P->y, i)) {
      vp::ev("x", i);
      throw E{i};
    }
    vp::ev("p", i);
#if ALG == 'E'
    PR e;
#elif ALG == 'M'
    PR Elt{e.a, e.b + 100};
#else
    PR Elt{e.a, e.a + 1};
#endif
  }
};

// ---- the function ----
#if ALG == 'E' || ALG == 'M'
struct Fun {
  Fun() = default;
  Fun(Fun const &) {
    if (ncopy->fetch_add(1, std::memory_order_relaxed) + 1 == P->q) {
      vp::ev("q", 200);
      throw E{200};
    }
  }
  Fun &operator=(Fun const &) = default;
  #if ALG == 'E'
  FN Elt &e) const FRET(void) {
  #else
  FN Elt e) const FRET(Elt) {
  #endif
    int i = (int)e.a;
    vp::ev("s", i);
    vp::point();
  #if FUN == 1
    if (i % 3 != 1) FORKS();
  #endif
    if (in(P->k, i)) {
      nstuck->fetch_add(1);
      vp::spin_until([](void *) { return ndone->load() + std::max(1, P->c) * (int)P->k.size() >= P->n && nstuck->load() == (int)P->k.size(); }, nullptr);
      vp::ev("k", i);
      nrel->fetch_add(1);
      vp::spin_until([](void *) { return nrel->load() == (int)P->k.size(); }, nullptr);
    }
    if (in(P->x, i)) {
      vp::ev("x", i);
      throw E{i};
    }
    ndone->fetch_add(1);
    vp::ev("d", i);
  #if ALG == 'E'
    hits[i]++;
    e.b++;
    RET;
  #else
    RET Elt{e.a, 3 * e.b + 1};
  #endif
  }
};
#else
struct Fun {
  Fun() = default;
  Fun(Fun const &) {
    if (ncopy->fetch_add(1, std::memory_order_relaxed) + 1 == P->q) {
      vp::ev("q", 200);
      throw E{200};
    }
  }
  Fun &operator=(Fun const &) = default;
  FN Elt l, Elt r) const FRET(Elt) {
    vp::ev("m", l.a, l.b, r.a, r.b);
    vp::point();
  #if FUN == 1
    if ((l.b + l.a) % 3 != 1) FORKS();
  #endif
    if (in(P->x, (int)l.b)) {
      vp::ev("X", l.a, l.b, r.b);
      throw E{100 + (int)l.b};
    }
    vp::ev("M", l.a, l.b, r.b);
    RET Elt{l.a, r.b};
  }
};
#endif

#if ALG == 'E'
  #define ALGO lf::for_each
#elif ALG == 'M'
  #define ALGO lf::map
#elif ALG == 'F'
  #define ALGO lf::fold
#else
  #define ALGO lf::scan
#endif
#if PROJ
  #define PR_ARG , Proj{}
#else
  #define PR_ARG
#endif
#if ALG == 'F'
  #define GOT(expr)                                                                                                        \
    {                                                                                                                      \
      std::optional<Elt> got_ = co_await expr;                                                                                \
      if (got_) vp::ev("R", got_->a, got_->b);                                                                                    \
      else vp::ev("none");                                                                                                 \
    }
#else
  #define GOT(expr)                                                                                                        \
    {                                                                                                                      \
      co_await expr;                                                                                                       \
      vp::ev("ret");                                                                                                       \
    }
#endif

struct root_t {
  auto operator()(auto self, Elt *src, Elt *dst) const -> lf::task<> {
    int n = P->n;
    It b{src, src, src + n}, e{src + n, src, src + n};
    It o{dst, dst, dst + n};
    Range r{b, e};
    Sent s{src + n};
    int c = P->c;
    try {
#define BOTH(...)                                                                                                          \
  if (c) GOT(lf::just(ALGO)(__VA_ARGS__, c, Fun{} PR_ARG))                                                                 \
  else GOT(lf::just(ALGO)(__VA_ARGS__, Fun{} PR_ARG))
#if ALG == 'E' || ALG == 'F'
      if (P->form == 'i') BOTH(b, e)
      else if (P->form == 's') BOTH(b, s)
      else BOTH(r)
#elif ALG == 'M'
      if (P->form == 'i') BOTH(b, e, o)
      else if (P->form == 's') BOTH(b, s, o)
      else BOTH(r, o)
#else
      // scan does not accept a sentinel of another type
      if (P->inpl) {
        if (P->form == 'i') BOTH(b, e)
        else BOTH(r)
      } else {
        if (P->form == 'i') BOTH(b, e, o)
        else BOTH(r, o)
      }
#endif
    } catch (E const &x) {
      vp::ev("thr", x.id);
      for (int i = 0; i < n; i++) (void)(src[i].a + dst[i].a); // races with anything still running
      if (ALG != 'M' && ALG != 'E') dst = nullptr;
    }
    if (dst)
      for (int i = 0; i < n; i++) {
        if (ALG == 'E') vp::ev("o", i, hits[i]);
        if (ALG == 'M') vp::ev("o", i, dst[i].b, dst[i].w);
        if (ALG == 'S') vp::ev("o", i, dst[i].a, dst[i].b);
        if (ALG == 'E' && (src[i].a != i || src[i].b != 10 * i + hits[i])) vp::fault("input", "element %d is %ld %ld", i, src[i].a, src[i].b);
        if (!P->inpl && ALG == 'M' && (src[i].a != i || src[i].b != 10 * i)) vp::fault("input", "input element %d changed", i);
        if (!P->inpl && (ALG == 'F' || ALG == 'S') && (src[i].a != i || src[i].b != (PROJ ? -2 : i + 1))) vp::fault("input", "input element %d changed", i);
      }
  }
};

void vp::test() {
  P = &progs[progs.size() > 1 ? vp::choose((int)progs.size()) : 0];
  vp::set_trace_tag(P->tag.c_str());
  {
    int n = P->n;
    std::unique_ptr<Elt[]> src(n ? new Elt[n] : nullptr), dst(n ? new Elt[n] : nullptr);
    std::unique_ptr<long[]> h(new long[n + 1]());
    auto nd = std::make_unique<std::atomic<int>>(0);
    auto nc = std::make_unique<std::atomic<int>>(0);
    auto ns = std::make_unique<std::atomic<int>>(0);
    auto nr = std::make_unique<std::atomic<int>>(0);
    ncopy = nc.get(), ndone = nd.get(), nstuck = ns.get(), nrel = nr.get(), hits = h.get();
    for (int i = 0; i < n; i++) {
      src[i].a = i;
      src[i].b = ALG == 'E' || ALG == 'M' ? 10 * i : PROJ ? -2 : i + 1;
      if (ALG == 'M') dst[i].b = 10 * i;
    }
    wk::run(P->W, [&](wk::to_worker s) { lf::sync_wait(s, root_t{}, src.get(), P->inpl ? src.get() : dst.get()); });
  }
  vp::ev("end");
}
