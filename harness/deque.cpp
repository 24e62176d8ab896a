// C10: owner and thieves on lf::deque. Program: --prog=<pre>:<cap>:<owner ops>:<steals of thief 1>,<steals of thief 2>...
//   owner ops: p push next item, o pop, s size, S spawn thieves, J join thieves, D drain (pop until empty)
#include "../rt/vprt.h"
#include "libfork/core/ext/deque.hpp"
#include <string>
#include <cstdlib>
#include <cstring>
#include <thread>
#include <vector>

static std::vector<std::string> progs;
static std::vector<std::vector<std::string>> parts;

struct Item {
  long id;
  long payload;
};

void vp::setup(Args const &a) {
  std::string p = a.get("prog", "2:pppJooo:1,1");
  size_t s = 0;
  while (s <= p.size()) {
    size_t e = p.find('/', s);
    if (e == std::string::npos) e = p.size();
    std::string one = p.substr(s, e - s);
    progs.push_back(one);
    std::vector<std::string> v;
    size_t x = 0;
    while (x <= one.size()) {
      size_t y = one.find(':', x);
      if (y == std::string::npos) y = one.size();
      v.push_back(one.substr(x, y - x));
      x = y + 1;
    }
    parts.push_back(v);
    s = e + 1;
  }
}
void vp::finish() {}

static void check(Item *it) {
  if (it->payload != it->id * 7 + 1) vp::fault("payload", "item %ld has payload %ld", it->id, it->payload);
}

void vp::test() {
  int k = vp::choose((int)progs.size());
  vp::set_trace_tag(progs[k].c_str());
  auto &v = parts[k];
  long cap = atol(v[0].c_str());
  const char *ops = v[1].c_str();
  std::vector<int> st;
  for (const char *q = v[2].c_str(); *q;) {
    st.push_back((int)strtol(q, (char **)&q, 10));
    if (*q == ',') q++;
  }
  {
    lf::deque<Item *> dq(cap);
    std::vector<Item> items(24);
    std::vector<std::thread> th;
    long n = 0;
    auto pop = [&]() {
      vp::ev("po");
      Item *x = dq.pop([]() -> Item * { return nullptr; });
      if (x) check(x);
      vp::ev("pO", x ? x->id : 0);
      return x != nullptr;
    };
    for (const char *o = ops; *o; o++) switch (*o) {
      case 'p':
        n++;
        items[n].id = n;
        items[n].payload = n * 7 + 1;
        vp::ev("pu");
        dq.push(&items[n]);
        vp::ev("pU");
        break;
      case 'o': pop(); break;
      case 's': {
        vp::ev("sz");
        std::size_t a = dq.size();
        vp::ev("sZ", (long)a);
        break;
      }
      case 'e': {
        vp::ev("em");
        bool a = dq.empty();
        vp::ev("eM", a);
        break;
      }
      case 'S':
        for (size_t i = 0; i < st.size(); i++) {
          int cnt = st[i];
          th.emplace_back([&dq, i, cnt]() {
            for (int j = 0; j < cnt; j++) {
              vp::ev("st", (long)i + 1);
              auto r = dq.steal();
              long res = 0;
              if (r.code == lf::err::none) {
                check(*r);
                res = (*r)->id;
              } else if (r.code == lf::err::lost)
                res = -1;
              vp::ev("sT", (long)i + 1, res);
            }
          });
        }
        break;
      case 'J':
        for (auto &t : th) t.join();
        th.clear();
        break;
      case 'D':
        while (pop()) {}
        break;
      }
    if (dq.capacity() < cap || (dq.capacity() & (dq.capacity() - 1))) vp::fault("capacity", "%ld", (long)dq.capacity());
  }
  vp::ev("end");
}
