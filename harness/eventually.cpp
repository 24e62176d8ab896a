// C21: sequences of operations on eventually / try_eventually of every kind (specs/Eventually.tla); --prog=<kind> --ops=<n>
#include "vprt.h"
#include <concepts>
#include <exception>
#include <memory>
#include <string>
#include <type_traits>
#include <utility>
#include "libfork/core.hpp"

static std::string prog;
static int nops;
void vp::setup(Args const &a) {
  prog = a.get("prog", "val");
  nops = (int)a.num("ops", 5);
}
void vp::finish() {}

struct Boom {
  int id;
};
static bool mute = true;
static void say(const char *k, long i) {
  if (!mute) vp::ev(k, i);
}
struct From {
  int id;
  bool boom;
};
struct Val {
  int id;
  std::unique_ptr<long> payload; // leaks or double frees when life times are wrong
  explicit Val(int i) : id(i), payload(new long(i)) {}
  Val(From f) : id(f.id), payload(new long(f.id)) {
    if (f.boom) throw Boom{f.id};
    say("C", id);
  }
  Val(Val const &o) : id(o.id), payload(new long(o.id)) { say("K", id); }
  Val(Val &&o) : id(o.id), payload(std::move(o.payload)) {
    say("M", id);
    o.id = 0;
  }
  Val &operator=(Val const &) { return vp::fault("value", "assigned over"), *this; }
  Val &operator=(Val &&) { return vp::fault("value", "assigned over"), *this; }
  ~Val() {
    say("D", id);
    id = -77;
  }
};
struct alignas(64) Big : Val {
  using Val::Val;
  char fill[200]{};
};
struct Exc {
  int id;
  Exc(int i) : id(i) {}
  Exc(Exc const &o) : id(o.id) { vp::fault("exception", "copied"); }
  ~Exc() { say("E", id); }
};

template <class Ev> static constexpr bool tries = requires(Ev &e) { e.has_exception(); };

template <class Ev> static void query(Ev const &e) {
  bool v = false, x = false;
  if constexpr (requires { e.has_value(); }) v = e.has_value();
  if constexpr (tries<Ev>) x = e.has_exception();
  static_assert(noexcept(e.empty()));
  vp::ev("q", e.empty(), v, x);
}
template <class Ev> static void stash(Ev &e, int i) {
  try {
    throw Exc{i};
  } catch (...) {
    stash_exception(e);
  }
  vp::ev("s", i);
}
template <class Ev> static void rethrow(Ev &e) {
  std::exception_ptr p = vp::choose(2) ? e.exception() : std::as_const(e).exception();
  if (p != e.exception()) vp::fault("exception", "pointer differs");
  try {
    std::rethrow_exception(p);
  } catch (Exc const &x) {
    vp::ev("t", x.id);
  } catch (...) {
    vp::fault("exception", "another type");
  }
}
template <class T, class Ev> static void on_value(Ev &e, int &st) {
  static Val *src[3];
  switch (st) {
  case 0: { // empty
    int i = 1 + vp::choose(2), h = vp::choose(4);
    const char *nm[] = {"ac", "ak", "am", "ax"};
    T *s = nullptr;
    if (h == 1 || h == 2) s = new T(i);
    vp::ev(nm[h], i);
    mute = false;
    try {
      Ev *r = nullptr;
      if (h == 0) r = &(e = From{i, false});
      if (h == 1) r = &(e = std::as_const(*s));
      if (h == 2) r = &(e = std::move(*s));
      if (h == 3) r = &(e = From{i, true});
      mute = true;
      if (r != &e) vp::fault("assign", "does not return the object");
      vp::ev("A");
      st = 1;
    } catch (Boom const &b) {
      mute = true;
      vp::ev("X", b.id);
    }
    if (s && s->id != (h == 2 ? 0 : i)) vp::fault("assign", "source of the assignment is %d", s->id);
    delete s;
    break;
  }
  case 1: {
    T *p = std::addressof(*e);
    if ((char *)p < (char *)&e || (char *)(p + 1) > (char *)(&e + 1)) vp::fault("storage", "value is not inside the object");
    if ((unsigned long)p % alignof(T)) vp::fault("storage", "value is not aligned");
    if (p != std::addressof(*std::as_const(e)) || p != e.operator->() || p != std::as_const(e).operator->()) vp::fault("storage", "value moves");
    static_assert(std::same_as<decltype(*std::move(e)), T &&> && std::same_as<decltype(*std::move(std::as_const(e))), T const &&>);
    static_assert(std::same_as<decltype(*e), T &> && std::same_as<decltype(*std::as_const(e)), T const &>);
    switch (vp::choose(3)) {
    case 0: {
      int k = vp::choose(4);
      vp::ev("r", k == 0 ? (*e).id : k == 1 ? (*std::as_const(e)).id : k == 2 ? e->id : std::as_const(e)->id);
      if (p->payload && *p->payload != p->id) vp::fault("value", "payload of %d changed", p->id);
      break;
    }
    case 1: {
      int i = 1 + vp::choose(2);
      e->id = i;
      p->payload.reset(new long(i));
      vp::ev("w", i);
      break;
    }
    case 2: {
      vp::ev("mo");
      mute = false;
      T t(*std::move(e));
      mute = true;
      vp::ev("MO", t.id);
      break;
    }
    }
  }
  }
}
template <class T, class Ev> static void on_ref(Ev &e, int &st) {
  static int tgt[3];
  using R = std::remove_reference_t<T>;
  if (st == 0) {
    int i = 1 + vp::choose(2);
    tgt[i] = 10 * i;
    static_assert(noexcept(e = static_cast<T>(tgt[i])));
    Ev *r = &(e = static_cast<T>(tgt[i]));
    if (r != &e) vp::fault("assign", "does not return the object");
    vp::ev("b", i);
    st = 1;
  } else {
    static_assert(std::same_as<decltype(*e), R &> && std::same_as<decltype(*std::move(e)), T>);
    T &&m = *std::move(e);
    R *p = std::addressof(*e);
    if (p != std::addressof(m) || p != std::addressof(*std::as_const(e)) || p != e.operator->()) vp::fault("reference", "differs");
    for (int i = 1; i < 3; i++)
      if (p == &tgt[i]) {
        if (*p != 10 * i) vp::fault("reference", "referenced object changed");
        vp::ev("r", i);
        return;
      }
    vp::fault("reference", "to something else");
  }
}

template <class T, class Ev> static void drive() {
  for (int n = 0; n < nops;) {
    alignas(64) static char buf[1024];
    static_assert(sizeof(Ev) + 64 <= sizeof buf && !std::is_move_constructible_v<Ev> && !std::is_copy_assignable_v<Ev>);
    for (char &c : buf) c = (char)0xA5;
    Ev *e = new (buf) Ev;
    static_assert(std::is_nothrow_default_constructible_v<Ev> && std::is_nothrow_destructible_v<Ev>);
    vp::ev("new");
    int st = 0;
    for (bool go = true; go && n < nops;) {
      switch (vp::choose(4)) {
      case 0: n++, query(*e); break;
      case 1:
        if constexpr (tries<Ev>) {
          if (st == 0) n++, stash(*e, 1 + vp::choose(2)), st = 2;
          else if (st == 2) n++, rethrow(*e);
        }
        break;
      case 2:
        if (st < 2) {
          if constexpr (std::is_reference_v<T>) n++, on_ref<T>(*e, st);
          else if constexpr (!std::is_void_v<T>) n++, on_value<T>(*e, st);
        }
        break;
      case 3: go = false; break;
      }
    }
    vp::ev("del");
    mute = false;
    e->~Ev();
    mute = true;
    vp::ev("DEL");
    for (char *c = buf + sizeof(Ev); c < buf + sizeof buf; c++)
      if (*c != (char)0xA5) vp::fault("storage", "written outside the object");
    if (vp::choose(2)) break;
  }
}

void vp::test() {
  vp::set_trace_tag(prog.c_str());
  mute = true;
  if (prog == "val") drive<Val, lf::eventually<Val>>();
  else if (prog == "tryval") drive<Val, lf::try_eventually<Val>>();
  else if (prog == "big") drive<Big, lf::eventually<Big>>();
  else if (prog == "trybig") drive<Big, lf::try_eventually<Big>>();
  else if (prog == "ref") drive<int &, lf::eventually<int &>>();
  else if (prog == "tryref") drive<int &, lf::try_eventually<int &>>();
  else if (prog == "cref") drive<int const &, lf::eventually<int const &>>();
  else if (prog == "rref") drive<int &&, lf::eventually<int &&>>();
  else if (prog == "tryrref") drive<int &&, lf::try_eventually<int &&>>();
  else drive<void, lf::try_eventually<void>>();
  vp::ev("end");
}
