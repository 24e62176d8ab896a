// ext::event_count (specs/EventCount.tla).  Program: ops of thread 1,ops of thread 2,...
//   p prepare_wait  w wait(key)  x cancel_wait  c<n> wait(key) if counter < n else cancel  n notify_one  N notify_all  s counter++
//   A<n> await(counter >= n)  T<n> await(condition that throws once counter >= n)
#include "vprt.h"
#include <atomic>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <optional>
#include <string>
#include <thread>
#include <vector>
#include "libfork/schedule/ext/event_count.hpp"

struct Prog {
  std::string tag;
  std::vector<std::vector<std::pair<char, int>>> t;
};
static std::vector<Prog> progs;

void vp::setup(Args const &a) {
  std::string s = a.get("prog", "A1,sN");
  std::size_t b = 0;
  while (b <= s.size()) {
    std::size_t e = s.find('/', b);
    if (e == std::string::npos) e = s.size();
    Prog p;
    p.tag = s.substr(b, e - b);
    p.t.emplace_back();
    for (char const *q = p.tag.c_str(); *q;) {
      char c = *q++;
      if (c == ',') {
        p.t.emplace_back();
        continue;
      }
      int n = 0;
      if (*q >= '0' && *q <= '9') n = (int)strtol(q, (char **)&q, 10);
      p.t.back().push_back({c, n});
    }
    progs.push_back(p);
    b = e + 1;
  }
}
void vp::finish() {}

using ec_t = lf::event_count;

// prepare / cancel and an await left by an exception restore the event count exactly
static void leaves_no_trace() {
  ec_t ec;
  unsigned char before[sizeof(ec_t)];
  memcpy(before, (void *)&ec, sizeof before);
  auto k = ec.prepare_wait();
  (void)k;
  ec.cancel_wait();
  if (memcmp(before, (void *)&ec, sizeof before)) vp::fault("trace", "cancel_wait leaves a trace");
  for (int n = 1; n <= 2; n++) {
    int calls = 0, caught = 0;
    try {
      ec.await([&]() -> bool {
        if (++calls == n) throw n;
        return false;
      });
    } catch (int x) {
      caught = x;
    }
    if (caught != n || calls != n) vp::fault("await", "wrong exception or number of evaluations");
    if (memcmp(before, (void *)&ec, sizeof before)) vp::fault("trace", "await leaves a waiter registered after an exception");
    calls = 0;
    ec.await([&] { return ++calls == n; });
    if (memcmp(before, (void *)&ec, sizeof before)) vp::fault("trace", "await leaves a waiter registered");
  }
}

void vp::test() {
  Prog &P = progs[progs.size() > 1 ? vp::choose((int)progs.size()) : 0];
  vp::set_trace_tag(P.tag.c_str());
  vp::ignore_begin();
  leaves_no_trace();
  vp::ignore_end();
  auto ec = std::make_unique<ec_t>();
  auto cnt = std::make_unique<std::atomic<long>>(0);
  auto done = std::make_unique<std::atomic<int>>(0);
  auto data = std::make_unique<long[]>(P.t.size() + 1);
  std::vector<std::thread> th;
  for (std::size_t i = 0; i < P.t.size(); i++)
    th.emplace_back([&, i] {
      long t = (long)i + 1;
      std::optional<ec_t::key> key;
      for (auto [k, n] : P.t[i]) {
        switch (k) {
          case 'p':
            vp::ev("p", t);
            key.emplace(ec->prepare_wait());
            vp::ev("d", t);
            break;
          case 'x':
            ec->cancel_wait();
            vp::ev("x", t);
            break;
          case 'w':
            vp::ev("w", t);
            ec->wait(*key);
            vp::ev("d", t);
            break;
          case 'c':
            if (cnt->load(std::memory_order_relaxed) >= n) {
              ec->cancel_wait();
              vp::ev("x", t);
            } else {
              ec->wait(*key);
              vp::ev("d", t);
            }
            break;
          case 's':
            vp::ignore_begin();
            cnt->fetch_add(1, std::memory_order_relaxed);
            vp::ignore_end();
            vp::ev("s", t);
            break;
          case 'n':
            vp::ev("n", t);
            ec->notify_one();
            vp::ev("d", t);
            break;
          case 'N':
            vp::ev("N", t);
            ec->notify_all();
            vp::ev("d", t);
            break;
          case 'A':
            vp::ev("A", t);
            ec->await([&] { return cnt->load(std::memory_order_relaxed) >= n; });
            vp::ev("a", t);
            break;
          case 'T': {
            vp::ev("T", t);
            bool threw = false;
            try {
              ec->await([&]() -> bool {
                if (cnt->load(std::memory_order_relaxed) >= n) throw 5;
                return false;
              });
            } catch (int x) {
              threw = x == 5;
            }
            if (!threw) vp::fault("await", "exception of the condition lost");
            vp::ev("t", t);
            break;
          }
        }
      }
      done->fetch_add(1);
    });
  vp::quiesce(100000);
  for (std::size_t i = 0; i < P.t.size(); i++)
    if (vp::is_blocked((int)i + 1)) vp::ev("b", (long)i + 1);
  vp::ev("rest");
  cnt->store(100);
  while (done->load() < (int)P.t.size()) {
    ec->notify_all();
    vp::yield();
  }
  for (auto &t : th) t.join();
  vp::ev("end");
}
