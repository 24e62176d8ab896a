// C08: sequences of operations on segmented stacks (specs/Stack.tla); --prog=<sizes> --ops=<n> --blocks=<n>
#include "vprt.h"
#include <cstdlib>
#include <new>
#include <optional>
#include <string>
#include <utility>
#include <vector>
#include "libfork/core.hpp"

static std::string prog;
static int nops, nblocks;
static std::vector<int> sizes; // in units of 16 bytes
void vp::setup(Args const &a) {
  prog = a.get("prog", "1");
  nops = (int)a.num("ops", 6);
  nblocks = (int)a.num("blocks", 4);
  for (char *p = (char *)prog.c_str(); *p;) {
    sizes.push_back((int)strtol(p, &p, 10));
    if (*p) p++;
  }
}
void vp::finish() {}

using lf::impl::stack;
constexpr int NS = 2;
struct Block {
  unsigned char *p;
  int size;
  int bytes; // requested
  int id;
};
struct Ref { // what the content of a stack should be
  Block b[16];
  int n = 0;
};
static int next_id;


static void at(Block const &b, int k, bool write) {
  unsigned char v = (unsigned char)(b.id * 37 + k);
  if (write) b.p[k] = v;
  else if (b.p[k] != v) vp::fault("content", "byte %d of a block of %d bytes was overwritten", k, b.bytes);
}
static void touch(Block const &b, bool write) { // both ends, and the middle
  for (int k = 0; k < b.bytes && k < 24; k++) at(b, k, write);
  for (int k = b.bytes - 24; k < b.bytes; k++)
    if (k >= 24) at(b, k, write);
  for (int k = 24 + b.bytes / 7; k + 24 < b.bytes && b.bytes > 100; k += 1 + b.bytes / 7) at(b, k, write);
}
static void check(Ref const &r) {
  for (int i = 0; i < r.n; i++) touch(r.b[i], false);
}

void vp::test() {
  vp::set_trace_tag(prog.c_str());
  next_id = 1;
  struct {
    alignas(stack) unsigned char raw[sizeof(stack)];
    bool alive = false;
    Ref r;
    stack &get() { return *std::launder((stack *)raw); }
  } s[NS];
  struct {
    stack::stacklet *p;
    Ref r;
  } det[3];
  int ndet = 0;
  long base = vp::live_bytes();
  int total = 0;
  auto report = [&] {
    for (auto &x : s)
      if (x.alive) check(x.r);
    for (int i = 0; i < ndet; i++) check(det[i].r);
    long pages = (vp::live_bytes() - base + 4095) / 4096;
    int k = 0;
    while ((1l << k) < pages) k++;
    vp::ev("h", k);
  };
  auto alloc_block = [&](int i, int z) {
    Block b;
    b.size = z;
    b.bytes = 16 * z - vp::choose(2) * 15;
    b.id = next_id++ % 200;
    b.p = (unsigned char *)s[i].get().allocate((std::size_t)b.bytes);
    if ((std::uintptr_t)b.p % lf::impl::k_new_align) vp::fault("align", "block is not aligned");
    vp::region_enter(b.p, (std::size_t)b.bytes);
    touch(b, true);
    s[i].r.b[s[i].r.n++] = b;
    total++;
  };
  auto pop = [&](int i) {
    Block b = s[i].r.b[--s[i].r.n];
    touch(b, false);
    vp::region_exit(b.p);
    s[i].get().deallocate(b.p);
    total--;
    return b.size;
  };
  auto drop = [&](int i) {
    s[i].get().~stack();
    s[i].alive = false;
    vp::ev("x", i + 1);
    report();
  };
  for (int n = 0; n < nops; n++) {
    if (vp::choose(8) == 7) { // one of the allocations made by the next operation fails
      vp::ev("F");
      vp::fail_alloc_after(vp::choose(2));
    }
    int i = vp::choose(NS);
    auto &x = s[i];
    bool ok = true;
    if (!x.alive) {
      int j = 1 - i;
      if (s[j].alive && vp::choose(2)) {
        try {
          new (x.raw) stack(std::move(s[j].get()));
          std::swap(x.r, s[j].r);
          x.alive = true;
        } catch (std::bad_alloc const &) {
          ok = false;
        }
        vp::fail_alloc_after(-1);
        vp::ev("m", j + 1, i + 1, ok);
      } else {
        try {
          new (x.raw) stack;
          x.alive = true;
        } catch (std::bad_alloc const &) {
          ok = false;
        }
        vp::fail_alloc_after(-1);
        x.r.n = 0;
        vp::ev("n", i + 1, ok);
      }
      report();
      continue;
    }
    switch (vp::choose(8)) {
      case 0:
      case 1:
      case 2:
        if (total < nblocks) {
          int z = sizes[(std::size_t)vp::choose((int)sizes.size())];
          try {
            alloc_block(i, z);
          } catch (std::bad_alloc const &) {
            ok = false;
          }
          vp::fail_alloc_after(-1);
          vp::ev("a", i + 1, z, ok);
          break;
        }
        [[fallthrough]];
      case 3:
      case 4:
        if (x.r.n) {
          vp::fail_alloc_after(-1);
          vp::ev("d", i + 1, pop(i));
          break;
        }
        if (vp::choose(2)) {
          vp::fail_alloc_after(-1);
          drop(i);
          continue;
        }
        [[fallthrough]];
      case 5:
        if (ndet && x.r.n == 0) {
          vp::fail_alloc_after(-1);
          // the hand-over of a stolen task's stack
          if (vp::choose(2)) x.get() = stack{det[0].p};
          else {
            stack t{det[0].p};
            swap(t, x.get());
          }
          x.r = det[0].r;
          vp::ev("t", i + 1, x.r.n);
          det[0] = det[1];
          ndet--;
          break;
        }
        [[fallthrough]];
      case 6:
        if (ndet < 2) {
          try {
            stack::stacklet *top = x.get().top();
            stack::stacklet *p = x.get().release();
            if (p != top) vp::fault("release", "is not the top stacklet");
            det[ndet].p = p;
            det[ndet++].r = x.r;
            x.r.n = 0;
          } catch (std::bad_alloc const &) {
            ok = false;
          }
          vp::fail_alloc_after(-1);
          vp::ev("r", i + 1, ok);
          break;
        }
        [[fallthrough]];
      default: {
        vp::fail_alloc_after(-1);
        int j = 1 - i;
        if (s[j].alive && vp::choose(2)) {
          if (vp::choose(2)) swap(s[i].get(), s[j].get());
          else s[i].get() = std::move(s[j].get());
          std::swap(s[i].r, s[j].r);
          vp::ev("w", 1, 2);
        } else {
          vp::ev("e", i + 1, x.get().empty());
        }
      }
    }
    report();
  }
  // release everything
  for (int i = 0; i < NS; i++) {
    if (!s[i].alive) {
      if (!ndet) continue;
      new (s[i].raw) stack;
      s[i].alive = true;
      vp::ev("n", i + 1, 1);
      report();
    }
    for (;;) {
      while (s[i].r.n) {
        vp::ev("d", i + 1, pop(i));
        report();
      }
      if (!ndet) break;
      s[i].get() = stack{det[0].p};
      s[i].r = det[0].r;
      det[0] = det[1];
      ndet--;
      vp::ev("t", i + 1, s[i].r.n);
      report();
    }
    drop(i);
  }
  vp::ev("end");
}
