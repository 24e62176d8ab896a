// ext::intrusive_list, driven by several producers and one consumer (specs/List.tla).
#include "vprt.h"
#include <atomic>
#include <memory>
#include <string>
#include <thread>
#include <vector>
#include "libfork/core/ext/list.hpp"
#include "libfork/core.hpp"

struct Payload {
  long p, i, data;
  void *node = nullptr;
};
using list_t = lf::intrusive_list<Payload *>;
struct Prog {
  std::string tag;
  std::vector<int> items;
};
static std::vector<Prog> progs;

void vp::setup(Args const &a) {
  std::string s = a.get("prog", "2,1");
  std::size_t b = 0;
  while (b <= s.size()) {
    std::size_t e = s.find('/', b);
    if (e == std::string::npos) e = s.size();
    Prog p;
    p.tag = s.substr(b, e - b);
    char const *q = p.tag.c_str();
    while (*q) {
      p.items.push_back((int)strtol(q, (char **)&q, 10));
      if (*q == ',') q++;
    }
    progs.push_back(p);
    b = e + 1;
  }
}
void vp::finish() {}

void vp::test() {
  Prog &P = progs[progs.size() > 1 ? vp::choose((int)progs.size()) : 0];
  vp::set_trace_tag(P.tag.c_str());
  auto list = std::make_unique<list_t>();
  int total = 0;
  for (int n : P.items) total += n;
  std::vector<std::thread> th;
  for (std::size_t p = 0; p < P.items.size(); p++)
    th.emplace_back([&, p] {
      for (int i = 1; i <= P.items[p]; i++) {
        auto *pl = new Payload{(long)p + 1, i, (long)(100 * p + i)};
        auto *n = new list_t::node(pl);
        pl->node = n;
        vp::ev("s", (long)p + 1, i);
        list->push(n);
        vp::ev("d", (long)p + 1, i);
      }
    });
  int got = 0;
  while (got < total) {
    vp::ev("q");
    list_t::node *n = list->try_pop_all();
    bool any = n != nullptr;
    // an element may be destroyed as soon as it has been handed over
    for_each_elem(n, [&](Payload *&p) {
      vp::ev("c", p->p, p->i);
      if (p->data != 100 * (p->p - 1) + p->i) vp::fault("payload", "contents of a submitted job not visible");
      got++;
      Payload *q = p;
      delete static_cast<list_t::node *>(q->node);
      delete q;
    });
    vp::ev("o");
    if (!any) vp::yield();
  }
  for (auto &t : th) t.join();
  vp::ev("end");
}
