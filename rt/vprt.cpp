#include "vprt.h"
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <new>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <algorithm>
#include <dlfcn.h>
#include <link.h>
#include <execinfo.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <sys/auxv.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <asm/prctl.h>

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;
typedef unsigned __int128 u128;

extern "C" {
void *__real_malloc(size_t);
void __real_free(void *);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void *__libc_malloc(size_t);
void __libc_free(void *);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
}

// ---- allocator for the runtime's own containers -------------------------------------------
template <class T> struct RA {
  using value_type = T;
  RA() = default;
  template <class U> RA(RA<U> const &) {}
  T *allocate(size_t n) { return (T *)__libc_malloc(n * sizeof(T)); }
  void deallocate(T *p, size_t) { __libc_free(p); }
  template <class U> bool operator==(RA<U> const &) const { return true; }
};
template <class T> using Vec = std::vector<T, RA<T>>;
using Str = std::basic_string<char, std::char_traits<char>, RA<char>>;
struct StrHash {
  size_t operator()(Str const &s) const {
    u64 h = 1469598103934665603ull;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return h;
  }
};
template <class K, class V, class H = std::hash<K>> using Map = std::unordered_map<K, V, H, std::equal_to<K>, RA<std::pair<const K, V>>>;
template <class K, class H = std::hash<K>> using Set = std::unordered_set<K, H, std::equal_to<K>, RA<K>>;

namespace vp {

static const u32 INF = 0xffffffffu;
static const int NC = MAXT + 1; // the threads and, in views, the sequentially consistent accesses
struct VC {
  u32 c[NC];
  void join(VC const &o) {
    for (int i = 0; i < NC; i++)
      if (o.c[i] > c[i]) c[i] = o.c[i];
  }
};

enum St { FREE, RUN, FUTEX, JOIN, SPIN, MUTEX, COND, GUARD, DONE };
struct Fiber {
  void *sp;
  u64 fs;
  char *stack;
  St st;
  bool yielded;
  long ystamp;
  u32 yk;
  bool detached, joined;
  int jtarget;
  uintptr_t waddr;
  u32 wval;
  u32 wmask;
  bool woken;
  bool (*pred)(void *);
  void *parg;
  long qlimit;
  void *(*fn)(void *);
  void *arg;
  void *ret;
  pthread_t pt;
  VC hb, w, rhb, rw, ahb, aw;
  long prio;
  int ign;
  u32 nyield;
};

static const size_t STK = 512 * 1024;
static Fiber F[MAXT];
static int nF = 0;       // fibers used in this execution
static int cur = -1;     // current fiber, -1: base
static bool inexec = false;
static void *base_sp;
static u64 base_fs;
static bool have_fsgsbase = false;
static pthread_t donors[MAXT];
static VC gclock;        // clocks over executions
// The order S of [atomics.order] is the order of execution.  scW: what happened before some fence so far; scT: number of
// sequentially consistent accesses so far, whose messages are marked in seen[MAXT].  A fence sees both; a sequentially
// consistent load sees both too, but only for its own location.
static VC scW;
static u32 scT;

// ---- options ------------------------------------------------------------------------------
enum Strat { S_RANDOM, S_PCT, S_DFS, S_REPLAY };
static u64 opt_seed = 1;
static long opt_execs = 1000000000, opt_from = 0;
static double opt_time = 10;
static const char *opt_out = nullptr;
static const char *opt_dump = nullptr;
static long opt_dumpmax = 2000;
static bool opt_weak = false, opt_race = true, opt_mix = true, opt_print = false, opt_leak = true;
static int opt_bound = 2;
static Strat opt_strat = S_RANDOM;
static long opt_maxsteps = 400000;
static Vec<u8> replay_choices;

static Args g_args;
const char *Args::get(const char *name, const char *d) const {
  size_t n = strlen(name);
  for (int i = 1; i < argc; i++)
    if (!strncmp(argv[i], "--", 2) && !strncmp(argv[i] + 2, name, n) && argv[i][2 + n] == '=') return argv[i] + 3 + n;
  return d;
}
long Args::num(const char *name, long d) const {
  const char *s = get(name);
  return s ? atol(s) : d;
}

// ---- randomness ---------------------------------------------------------------------------
static u64 rs[2];
static u64 splitmix(u64 &x) {
  u64 z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static u64 rnext() {
  u64 a = rs[0], b = rs[1];
  rs[0] = b;
  a ^= a << 23;
  rs[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
  return rs[1] + b;
}
static u64 hrs;
u64 rnd() { return splitmix(hrs); }
static u32 rn(u32 n) { return (u32)((rnext() >> 32) * (u64)n >> 32); }

// ---- per execution state --------------------------------------------------------------------
static long g_steps, g_exec, consec;
static long n_futex_wake, n_futex_wait;
static u32 switch_p;     // out of 256
static u32 stale_p;      // out of 256
static Strat strat;
static bool weak_sim;
static bool fairphase;
static Vec<long> pct_points;
static size_t pct_i;
static long pct_low;
static double avg_steps = 200;
static Vec<u8> choices;
static Str trace;        // tokens separated by ';'
static Str tag;
static long nev;
static bool leak_on;

// DFS
struct DC { u8 n, c; };
static Vec<DC> dfs;
static size_t dfs_pos;
static int dfs_pre;
static bool dfs_done = false;

static long total_steps, total_switches, total_ev, total_stale, total_loads;
static long n_execs;
static double t0;

static double now() {
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

// ---- fs base ----------------------------------------------------------------------------------
static inline u64 get_fs() {
  u64 v;
  if (have_fsgsbase) {
    asm volatile("rdfsbase %0" : "=r"(v));
    return v;
  }
  syscall(SYS_arch_prctl, ARCH_GET_FS, &v);
  return v;
}
static inline long raw_syscall2(long n, long a, long b) {
  long r;
  asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b) : "rcx", "r11", "memory");
  return r;
}
static inline void set_fs(u64 v) {
  if (have_fsgsbase) asm volatile("wrfsbase %0" ::"r"(v));
  else raw_syscall2(SYS_arch_prctl, ARCH_SET_FS, (long)v);
}

extern "C" void vp_switch(void **save, void *to);
asm(R"(
.text
.globl vp_switch
.type vp_switch,@function
vp_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size vp_switch,.-vp_switch
)");

static void switch_to(int t) {
  if (t == cur) return;
  int from = cur;
  cur = t;
  total_switches++;
  consec = 0;
  set_fs(F[t].fs);
  vp_switch(from < 0 ? &base_sp : &F[from].sp, F[t].sp);
}
static void switch_base() {
  int from = cur;
  cur = -1;
  set_fs(base_fs);
  vp_switch(&F[from].sp, base_sp);
}

// ---- automaton acceptor ---------------------------------------------------------------------
// file: line "aut <nstates> <nedges>", "init s tag" (the program's initial state), then edges "from to token..." where token "-" is hidden
struct Aut {
  bool loaded = false;
  int n = 0;
  Map<Str, int, StrHash> sym;
  Vec<Vec<std::pair<int, int>>> out; // (sym,to)
  Vec<Vec<int>> eps;
  Map<Str, Vec<int>, StrHash> init; // by tag
  Map<Str, int, StrHash> dinit;
  // determinised lazily
  struct Key { Vec<int> v; bool operator==(Key const &o) const { return v == o.v; } };
  struct KH { size_t operator()(Key const &k) const { u64 h = 7; for (int x : k.v) h = (h ^ (u64)x) * 0x9e3779b97f4a7c15ull; return h; } };
  Map<Key, int, KH> ids;
  Vec<Vec<int>> sets;
  Vec<Map<int, int>> dtrans;
  Vec<u8> edge_hit; long hits = 0, nedges = 0;
  int close(Vec<int> &s) {
    Vec<int> st = s;
    Set<int> seen(s.begin(), s.end());
    while (!st.empty()) {
      int x = st.back();
      st.pop_back();
      for (int y : eps[x])
        if (seen.insert(y).second) st.push_back(y), s.push_back(y);
    }
    std::sort(s.begin(), s.end());
    s.erase(std::unique(s.begin(), s.end()), s.end());
    Key k{s};
    auto it = ids.find(k);
    if (it != ids.end()) return it->second;
    int id = (int)sets.size();
    ids.emplace(k, id);
    sets.push_back(s);
    dtrans.emplace_back();
    return id;
  }
  int step(int d, int sy) {
    auto it = dtrans[d].find(sy);
    if (it != dtrans[d].end()) return it->second;
    Vec<int> nx;
    for (int s : sets[d])
      for (auto &e : out[s])
        if (e.first == sy) nx.push_back(e.second);
    int r = nx.empty() ? -1 : close(nx);
    dtrans[d].emplace(sy, r);
    return r;
  }
  void load(const char *f) {
    FILE *fp = fopen(f, "r");
    if (!fp) { fprintf(stderr, "cannot open %s\n", f); _exit(2); }
    char *line = nullptr;
    size_t cap = 0;
    ssize_t len;
    while ((len = getline(&line, &cap, fp)) > 0) {
      if (line[len - 1] == '\n') line[--len] = 0;
      if (!strncmp(line, "aut ", 4)) {
        n = atoi(line + 4);
        out.resize(n);
        eps.resize(n);
      } else if (!strncmp(line, "init ", 5)) {
        char *p;
        long a = strtol(line + 5, &p, 10);
        while (*p == ' ') p++;
        init[Str(p)].push_back((int)a);
      }
      else if (line[0]) {
        char *p;
        long a = strtol(line, &p, 10), b = strtol(p, &p, 10);
        while (*p == ' ') p++;
        if (!strcmp(p, "-")) eps[a].push_back((int)b);
        else {
          auto it = sym.emplace(Str(p), (int)sym.size()).first;
          out[a].push_back({it->second, (int)b});
          nedges++;
        }
      }
    }
    free(line);
    fclose(fp);
    loaded = true;
    for (auto &kv : init) dinit[kv.first] = close(kv.second);
  }
  // returns index of first rejected token or -1
  long run(Str const &tg, Str const &tr) {
    int d = dinit.find(tg)->second;
    long i = 0;
    size_t p = 0;
    Str tok;
    while (p < tr.size()) {
      size_t e = tr.find(';', p);
      tok.assign(tr, p, e - p);
      p = e + 1;
      auto it = sym.find(tok);
      if (it == sym.end()) return i;
      d = step(d, it->second);
      if (d < 0) return i;
      i++;
    }
    return -1;
  }
};
static Vec<Aut *> auts;
static long n_judged = 0;
static Set<u64> seen_traces;
static Set<u64> seen_dtraces;
static FILE *dumpf = nullptr;
static long n_dumped = 0;

static u64 hstr(Str const &a, Str const &b) {
  u64 h = 1469598103934665603ull;
  for (unsigned char c : a) h = (h ^ c) * 1099511628211ull;
  h ^= 0xff;
  for (unsigned char c : b) h = (h ^ c) * 1099511628211ull;
  return h;
}

// ---- result output ----------------------------------------------------------------------------
static void json_str(FILE *f, const char *s) {
  fputc('"', f);
  for (; *s; s++) {
    unsigned char c = (unsigned char)*s;
    if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
    else if (c < 32) fprintf(f, "\\u%04x", c);
    else fputc(c, f);
  }
  fputc('"', f);
}
static Str first_trace, first_tag;
static void write_result(const char *status, const char *msg, long rej) {
  set_fs(base_fs);
  FILE *f = opt_out ? fopen(opt_out, "w") : stdout;
  if (!f) f = stdout;
  fprintf(f, "{\"status\":");
  json_str(f, status);
  fprintf(f, ",\"message\":");
  json_str(f, msg ? msg : "");
  fprintf(f, ",\"execs\":%ld,\"distinct\":%zu,\"steps\":%ld,\"switches\":%ld,\"events\":%ld,\"stale_loads\":%ld,\"loads\":%ld,\"dumped\":%ld,\"time\":%.3f,\"dfs_complete\":%s",
          n_execs, seen_traces.size(), total_steps, total_switches, total_ev, total_stale, total_loads, n_dumped, now() - t0,
          dfs_done ? "true" : "false");
  long nd = 0, ns = 0;
  for (auto *x : auts) nd += (long)x->sets.size(), ns += x->n;
  fprintf(f, ",\"aut_states\":%ld,\"aut_dstates\":%ld,\"judged\":%ld", ns, nd, n_judged);
  fprintf(f, ",\"exec\":%ld,\"seed\":%llu,\"rejected_at\":%ld,\"tag\":", g_exec, (unsigned long long)opt_seed, rej);
  bool bad = strcmp(status, "ok") != 0;
  json_str(f, bad ? tag.c_str() : first_tag.c_str());
  fprintf(f, ",\"trace\":");
  json_str(f, bad ? trace.c_str() : first_trace.c_str());
  if (bad) {
    fprintf(f, ",\"choices\":\"");
    for (size_t i = 0; i < choices.size(); i++) fprintf(f, i ? ",%d" : "%d", choices[i]);
    fprintf(f, "\"");
  }
  fprintf(f, "}\n");
  fflush(f);
  if (dumpf) fflush(dumpf);
}
[[noreturn]] static void stop_bad(const char *status, const char *msg, long rej) {
  inexec = false;
  write_result(status, msg, rej);
  _exit(1);
}

static char fault_msg[2048];
static bool faulted = false;

void fault(const char *what, const char *fmt, ...) {
  if (faulted) _exit(1);
  faulted = true;
  va_list ap;
  va_start(ap, fmt);
  int k = snprintf(fault_msg, sizeof fault_msg, "%s: ", what);
  vsnprintf(fault_msg + k, sizeof fault_msg - k, fmt, ap);
  va_end(ap);
  if (inexec) {
    trace += "F ";
    trace += what;
    trace += ';';
  }
  // a few return addresses for the report
  if (strcmp(what, "crash")) {
    void *bt[12];
    set_fs(cur >= 0 ? F[cur].fs : base_fs);
    inexec = false;
    size_t L = strlen(fault_msg);
    bt[0] = __builtin_return_address(0);
    L += snprintf(fault_msg + L, sizeof fault_msg - L, " [pc");
    int n = 1;
    for (int i = 0; i < n && L < sizeof fault_msg - 32; i++) L += snprintf(fault_msg + L, sizeof fault_msg - L, " %p", bt[i]);
    snprintf(fault_msg + L, sizeof fault_msg - L, "]");
  }
  stop_bad("fault", fault_msg, nev);
}
static Str notes;
void note(const char *fmt, ...) {
  char b[512];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  if (opt_print) fprintf(stderr, "[%ld:%d] %s\n", g_steps, cur, b);
}

// ---- events --------------------------------------------------------------------------------------
static void addnum(long v) {
  char b[24];
  int n = 0;
  bool neg = v < 0;
  u64 x = neg ? (u64)-v : (u64)v;
  do b[n++] = '0' + x % 10, x /= 10; while (x);
  trace += ' ';
  if (neg) trace += '-';
  while (n) trace += b[--n];
}
static void evn(const char *k, const long *v, int n) {
  if (!inexec) return;
  trace += k;
  for (int i = 0; i < n; i++) addnum(v[i]);
  trace += ';';
  nev++;
  total_ev++;
  if (opt_print) {
    fprintf(stderr, "[%ld:%d] EV %s", g_steps, cur, k);
    for (int i = 0; i < n; i++) fprintf(stderr, " %ld", v[i]);
    fprintf(stderr, "\n");
  }
}
void ev(const char *k) { evn(k, nullptr, 0); }
void ev(const char *k, long a) { evn(k, &a, 1); }
void ev(const char *k, long a, long b) { long v[] = {a, b}; evn(k, v, 2); }
void ev(const char *k, long a, long b, long c) { long v[] = {a, b, c}; evn(k, v, 3); }
void ev(const char *k, long a, long b, long c, long d) { long v[] = {a, b, c, d}; evn(k, v, 4); }
void ev(const char *k, long a, long b, long c, long d, long e) { long v[] = {a, b, c, d, e}; evn(k, v, 5); }
void set_trace_tag(const char *t) { tag = t; }

// ---- choices ----------------------------------------------------------------------------------------
static bool replaying() { return opt_strat == S_REPLAY; }
static int pick_dfs(int n) {
  if (dfs_pos < dfs.size()) {
    if (dfs[dfs_pos].n != n) {
      // nondeterminism in the harness: cannot enumerate
      inexec = false;
      write_result("error", "dfs replay diverged", -1);
      _exit(2);
    }
    return dfs[dfs_pos++].c;
  }
  dfs.push_back({(u8)n, 0});
  dfs_pos++;
  return 0;
}
int choose(int n) {
  if (n <= 1) return 0;
  int r;
  if (replaying()) {
    size_t i = choices.size();
    r = i < replay_choices.size() ? replay_choices[i] : 0;
    if (r >= n) r = 0;
  } else if (strat == S_DFS) r = pick_dfs(n);
  else r = (int)rn((u32)n);
  choices.push_back((u8)r);
  return r;
}

// ---- scheduling ----------------------------------------------------------------------------------------
int self() { return cur; }
bool active() { return inexec; }
long steps() { return g_steps; }
bool is_blocked(int t) { return t < nF && (F[t].st == FUTEX || F[t].st == JOIN || F[t].st == MUTEX || F[t].st == COND); }
bool is_done(int t) { return t < nF && F[t].st == DONE; }
int nthreads() { return nF; }
void weak(bool b) { weak_sim = b; }
bool weak_on() { return weak_sim; }
long execs_done() { return n_execs; }

// predicates see the latest values and take no steps
static bool eval_pred(bool (*p)(void *), void *a) {
  bool sv = inexec;
  inexec = false;
  bool r = p(a);
  inexec = sv;
  return r;
}
static bool runnable(int t) {
  Fiber &f = F[t];
  if (f.st == RUN) return true;
  if (f.st == SPIN) return eval_pred(f.pred, f.parg);
  return false;
}
static const char *stname(St s) {
  static const char *n[] = {"free", "running", "futex-wait", "join-wait", "spin-wait", "mutex-wait", "cond-wait", "guard-wait", "done"};
  return n[s];
}
static void stuck(const char *why) {
  char b[512];
  int k = 0;
  for (int i = 0; i < nF; i++) k += snprintf(b + k, sizeof b - k, " t%d=%s", i, stname(F[i].st));
  fault("stuck", "%s:%s", why, b);
}

static int quiescing = -1; // fiber in quiesce()

// choose who runs next; cur may be blocked/done
static int pick_next(bool vol) {
  int r[MAXT], n = 0, ry[MAXT], ny = 0;
  for (int i = 0; i < nF; i++) {
    if (!runnable(i)) continue;
    if (i == quiescing) continue;
    Fiber &f = F[i];
    if (f.yielded && g_steps - f.ystamp > (long)f.yk) f.yielded = false;
    if (f.yielded) ry[ny++] = i;
    else r[n++] = i;
  }
  if (quiescing >= 0 && n == 0 && (ny == 0 || g_steps > F[quiescing].qlimit)) {
    int q = quiescing;
    quiescing = -1;
    return q;
  }
  if (quiescing >= 0 && g_steps > F[quiescing].qlimit) {
    int q = quiescing;
    quiescing = -1;
    return q;
  }
  if (n == 0) {
    if (ny == 0) {
      bool all = true;
      for (int i = 0; i < nF; i++) all &= F[i].st == DONE;
      if (all) return -1;
      stuck("no thread can run");
    }
    for (int i = 0; i < ny; i++) r[i] = ry[i];
    n = ny;
    // everybody yielded: prefer somebody else
    if (n > 1 && vol) {
      int m = 0;
      for (int i = 0; i < n; i++)
        if (r[i] != cur) r[m++] = r[i];
      n = m;
    }
    for (int i = 0; i < n; i++) F[r[i]].yielded = false;
  }
  if (n == 1) return r[0];
  bool curin = false;
  for (int i = 0; i < n; i++) curin |= r[i] == cur;

  if (replaying()) {
    return r[choose(n)];
  }
  if (fairphase) {
    int c = (int)rn(n);
    choices.push_back((u8)c);
    return r[c];
  }
  int idx = 0;
  switch (strat) {
  case S_DFS:
    if (curin && !vol) {
      if (dfs_pre >= opt_bound) {
        for (int i = 0; i < n; i++)
          if (r[i] == cur) idx = i;
        // recorded below so that a replay needs no bound
        choices.push_back((u8)idx);
        return r[idx];
      }
      // option 0 = continue
      int c = pick_dfs(n);
      int order[MAXT], m = 0;
      order[m++] = cur;
      for (int i = 0; i < n; i++)
        if (r[i] != cur) order[m++] = r[i];
      if (c) dfs_pre++;
      for (int i = 0; i < n; i++)
        if (r[i] == order[c]) idx = i;
    } else
      idx = pick_dfs(n);
    break;
  case S_PCT: {
    if (pct_i < pct_points.size() && g_steps >= pct_points[pct_i]) {
      pct_i++;
      if (cur >= 0) F[cur].prio = --pct_low;
    }
    if (consec > 60 && curin) {
      F[cur].prio = --pct_low;
      consec = 0;
    }
    for (int i = 1; i < n; i++)
      if (F[r[i]].prio > F[r[idx]].prio) idx = i;
    break;
  }
  default:
    if (curin && !vol && (rnext() & 255) >= switch_p) {
      for (int i = 0; i < n; i++)
        if (r[i] == cur) idx = i;
    } else
      idx = (int)rn(n);
  }
  choices.push_back((u8)idx);
  return r[idx];
}

static void tick_step() {
  g_steps++;
  consec++;
  if (g_steps > opt_maxsteps && !fairphase) fairphase = true;
  if (g_steps > 3 * opt_maxsteps) stuck("no progress under a fair schedule");
}

static void resched(bool vol) {
  int t = pick_next(vol);
  if (t < 0) {
    switch_base();
    return;
  }
  F[t].yielded = false;
  if (F[t].st == SPIN) F[t].st = RUN;
  if (t != cur) switch_to(t);
}

void point() {
  if (!inexec || cur < 0) return;
  tick_step();
  resched(false);
}
void yield() {
  if (!inexec || cur < 0) return;
  tick_step();
  F[cur].yielded = true;
  F[cur].ystamp = g_steps;
  F[cur].yk = strat == S_DFS || replaying() ? 12 : 1 + (rnext() & 15);
  if (strat != S_DFS && !replaying()) { /* yk must be reproducible in a replay */ F[cur].yk = 12; }
  resched(true);
}
static void block() {
  tick_step();
  resched(true);
}
void spin_until(bool (*pred)(void *), void *arg) {
  if (eval_pred(pred, arg)) { point(); return; }
  F[cur].pred = pred;
  F[cur].parg = arg;
  F[cur].st = SPIN;
  block();
}
void quiesce(int n) {
  if (quiescing >= 0) return;
  quiescing = cur;
  F[cur].qlimit = g_steps + n;
  tick_step();
  resched(true);
}

// ---- shadow memory ---------------------------------------------------------------------------------------
static u32 curgen = 1;
struct Gran {
  u64 s[6]; // clk:32 | tid:8 | mask:8 | flags:8 (1 write, 2 atomic)
  u32 agen, aidx;
  u32 tgen, pad; // execution that last touched the granule: older slots are ordered before everything
};
struct Page { Gran g[512]; };
static const int PTB = 17;
static struct PE { u64 key; Page *p; } ptab[1 << PTB];
static u64 lastkey = ~0ull;
static Page *lastpage;
static Page *page_of(u64 key, bool make) {
  if (key == lastkey) return lastpage;
  u64 h = (key * 0x9e3779b97f4a7c15ull) >> (64 - PTB);
  for (;;) {
    if (ptab[h].p && ptab[h].key == key) {
      lastkey = key;
      return lastpage = ptab[h].p;
    }
    if (!ptab[h].p) {
      if (!make) return nullptr;
      Page *p = (Page *)mmap(nullptr, sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
      if (p == MAP_FAILED) { fprintf(stderr, "shadow oom\n"); _exit(2); }
      ptab[h] = {key, p};
      lastkey = key;
      return lastpage = p;
    }
    h = (h + 1) & ((1 << PTB) - 1);
  }
}
static inline Gran &gran(u64 a) { return page_of(a >> 12, true)->g[(a >> 3) & 511]; }

// ---- arena --------------------------------------------------------------------------------------------------
static const u64 AB = 0x200000000000ull; // fixed address
static const u64 AS = 1ull << 30;
static u64 aptr = AB, amax = AB;
static u8 *astate; // per 16-byte unit: 0 none 1 alloc 2 freed
struct Blk { u64 addr; u64 size; u32 id; u8 st; u8 track; u8 kind; };
static Vec<Blk> blks;
static Map<u64, u32> blkat;
static long a_count, a_live, a_liveblk, a_peak, a_fail = -1;
static bool a_track = true;
static int a_failt;
void fail_alloc_after(long n) { a_fail = n; a_failt = cur; }
long alloc_count() { return a_count; }
long live_bytes() { return a_live; }
long live_blocks() { return a_liveblk; }
long peak_bytes() { return a_peak; }
void reset_peak() { a_peak = a_live; }
void leak_check(bool b) { leak_on = b; }
void tracking(bool b) { a_track = b; }
static inline bool in_arena(u64 a) { return a >= AB && a < AB + AS; }

static void arena_reset() {
  u64 used = aptr - AB;
  memset(astate, 0, used / 16 + 1);
  if (used > (64u << 20)) madvise((void *)AB, AS, MADV_DONTNEED);
  aptr = AB;
  blks.clear();
  blkat.clear();
  a_count = a_live = a_liveblk = a_peak = 0;
  a_fail = -1;
  a_track = true;
}
static void *arena_alloc(size_t n, size_t al, int kind) {
  a_count++;
  if (a_fail >= 0 && cur == a_failt) {
    if (a_fail == 0) {
      a_fail = -1;
      return nullptr;
    }
    a_fail--;
  }
  if (n > (256u << 20)) return nullptr;
  if (al < 16) al = 16;
  u64 p = (aptr + 16 + al - 1) & ~(u64)(al - 1); // at least 16 bytes red zone
  u64 e = (p + n + 15) & ~15ull;
  if (e + 4096 > AB + AS) fault("memory", "one execution allocates more than %lu MiB in total", (unsigned long)(AS >> 20));
  aptr = e;
  if (aptr > amax) amax = aptr;
  memset(astate + (p - AB) / 16, 1, (e - p) / 16);
  // fill with garbage so that reads of uninitialised memory are visible
  memset((void *)p, 0xA5, n);
  blkat.emplace(p, (u32)blks.size());
  blks.push_back({p, n, (u32)blks.size(), 1, (u8)a_track, (u8)kind});
  if (a_track) a_live += (long)n, a_liveblk++;
  if (a_live > a_peak) a_peak = a_live;
  return (void *)p;
}
static void check_access(u64 a, size_t n, bool w, bool at, void *pc);
static void arena_free(void *q, int kind, void *pc) {
  u64 p = (u64)q;
  auto it = blkat.find(p);
  if (it == blkat.end()) fault("badfree", "free of %p which is not the start of an allocation", q);
  Blk &b = blks[it->second];
  if (b.st == 2) fault("doublefree", "block %p (%lu bytes) freed twice", q, (unsigned long)b.size);
  if (b.kind != kind) fault("badfree", "block %p allocated and released by different functions", q);
  // a free conflicts with every unsynchronised access
  if (inexec && cur >= 0 && b.size) {
    u64 lim = b.size > 65536 ? 65536 : b.size;
    for (u64 a = p; a < p + lim;) {
      Page *pg = page_of(a >> 12, false);
      u64 pe = (a | 4095) + 1;
      if (pe > p + lim) pe = p + lim;
      if (pg)
        for (; a < pe; a += 8) {
          Gran &g = pg->g[(a >> 3) & 511];
          if (g.tgen == curgen) check_access(a, pe - a < 8 ? pe - a : 8, true, false, pc);
        }
      a = pe;
    }
  }
  b.st = 2;
  if (b.track) a_live -= (long)b.size, a_liveblk--;
  memset(astate + (p - AB) / 16, 2, ((b.size + 15) & ~15ull) / 16);
  memset(q, 0x5A, b.size);
}

// regions
struct Reg { u64 a, e; int t; };
static Vec<Reg> regs;
void region_enter(const void *p, size_t n) {
  u64 a = (u64)p, e = a + n;
  for (auto &r : regs)
    if (a < r.e && r.a < e) fault("overlap", "live objects overlap: [%p,+%lu) and [%p,+%lu)", p, (unsigned long)n, (void *)r.a, (unsigned long)(r.e - r.a));
  if (in_arena(a) && n) {
    for (u64 x = a; x < e; x += 16)
      if (astate[(x - AB) / 16] != 1) fault("overlap", "live object %p outside any live heap block", p);
  }
  if (n) regs.push_back({a, e, cur});
}
void region_exit(const void *p) {
  for (size_t i = 0; i < regs.size(); i++)
    if (regs[i].a == (u64)p) {
      regs[i] = regs.back();
      regs.pop_back();
      return;
    }
}

// ---- race detection ------------------------------------------------------------------------------------------
void ignore_begin() { if (cur >= 0) F[cur].ign++; }
void ignore_end() { if (cur >= 0) F[cur].ign--; }

static void shadow_clear(u64 a, size_t n) {
  u64 e = a + n;
  for (u64 x = a & ~7ull; x < e; x += 8) {
    Page *p = page_of(x >> 12, false);
    if (!p) { x |= 4095; x -= 7; continue; }
    Gran &g = p->g[(x >> 3) & 511];
    memset(g.s, 0, sizeof g.s);
    g.agen = 0;
  }
}

struct Msg { u64 val; VC hb, w; u32 seen[NC]; };
static const int KM = 6;
struct ALoc {
  u64 addr;
  u32 size;
  int n;       // messages kept
  bool dirty;  // a plain write happened: history invalid
  int next;    // next loc in the same granule (index+1)
  bool mixed;
  Msg m[KM];
};
static Vec<ALoc> alocs;
static size_t n_alocs;

static inline void slot_access(Gran &g, u8 mask, bool w, bool at, u64 a, void *pc) {
  Fiber &f = F[cur];
  u32 clk = f.hb.c[cur];
  int fl = (w ? 1 : 0) | (at ? 2 : 0);
  if (g.tgen != curgen) {
    memset(g.s, 0, sizeof g.s);
    g.tgen = curgen;
  }
  if (!g.s[1] && ((u32)(g.s[0] >> 32) & 0xffffff) == ((u32)cur | (u32)mask << 8 | (u32)fl << 16) && g.s[0]) {
    g.s[0] = (g.s[0] & ~0xffffffffull) | clk;
    return;
  }
  int empty = -1, repl = -1, same = -1;
  for (int i = 0; i < 6; i++) {
    u64 s = g.s[i];
    if (!s) { if (empty < 0) empty = i; continue; }
    u32 sc = (u32)s;
    int st = (s >> 32) & 255, sm = (s >> 40) & 255, sf = (s >> 48) & 255;
    if (st == cur) {
      if (sm == mask && sf == fl) same = i;
      else if ((sm & ~mask) == 0 && (w || !(sf & 1)) && (!at || (sf & 2))) repl = i;
      continue;
    }
    if (sc > f.hb.c[st]) {
      if ((sm & mask) && (w || (sf & 1)) && !(at && (sf & 2)))
        if (opt_race && !f.ign)
          fault("race", "%s%s by t%d conflicts with unsynchronised %s%s by t%d at %p pc=%p", at ? "atomic " : "", w ? "write" : "read", cur,
                sf & 2 ? "atomic " : "", sf & 1 ? "write" : "read", st, (void *)a, pc);
    } else if ((sm & ~mask) == 0 && (w || !(sf & 1)) && (!at || (sf & 2)))
      repl = i;
  }
  u64 v = (u64)clk | ((u64)cur << 32) | ((u64)mask << 40) | ((u64)fl << 48) | (1ull << 63);
  int k = same >= 0 ? same : repl >= 0 ? repl : empty >= 0 ? empty : (int)((clk + mask) % 6);
  g.s[k] = v;
}
static void check_access(u64 a, size_t n, bool w, bool at, void *pc) {
  if (in_arena(a)) {
    u8 s = astate[(a - AB) / 16];
    if (s != 1) fault(s == 2 ? "uaf" : "oob", "%s of %zu bytes at %p %s pc=%p", w ? "write" : "read", n, (void *)a, s == 2 ? "in freed memory" : "outside any allocation", pc);
    if (n > 1) {
      u8 s2 = astate[(a + n - 1 - AB) / 16];
      if (s2 != 1) fault("oob", "%s of %zu bytes at %p runs over the end of an allocation pc=%p", w ? "write" : "read", n, (void *)a, pc);
    }
  }
  u64 e = a + n;
  while (a < e) {
    u64 ga = a & ~7ull, ge = ga + 8 < e ? ga + 8 : e;
    u8 mask = (u8)(((1u << (ge - a)) - 1) << (a - ga));
    Gran &g = gran(ga);
    if (w && !at && g.agen == curgen)
      for (u32 i = g.aidx; i; i = (u32)alocs[i - 1].next) {
        ALoc &L = alocs[i - 1];
        if (L.addr < ge && a < L.addr + L.size) L.dirty = true;
      }
    slot_access(g, mask, w, at, a, pc);
    a = ge;
  }
}

#define ACC(a, n, w)                                              \
  do {                                                            \
    if (inexec && cur >= 0) check_access((u64)(a), n, w, false, __builtin_return_address(0)); \
  } while (0)

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_read1(void *a) { ACC(a, 1, false); }
void __tsan_read2(void *a) { ACC(a, 2, false); }
void __tsan_read4(void *a) { ACC(a, 4, false); }
void __tsan_read8(void *a) { ACC(a, 8, false); }
void __tsan_read16(void *a) { ACC(a, 16, false); }
void __tsan_write1(void *a) { ACC(a, 1, true); }
void __tsan_write2(void *a) { ACC(a, 2, true); }
void __tsan_write4(void *a) { ACC(a, 4, true); }
void __tsan_write8(void *a) { ACC(a, 8, true); }
void __tsan_write16(void *a) { ACC(a, 16, true); }
void __tsan_unaligned_read2(void *a) { ACC(a, 2, false); }
void __tsan_unaligned_read4(void *a) { ACC(a, 4, false); }
void __tsan_unaligned_read8(void *a) { ACC(a, 8, false); }
void __tsan_unaligned_read16(void *a) { ACC(a, 16, false); }
void __tsan_unaligned_write2(void *a) { ACC(a, 2, true); }
void __tsan_unaligned_write4(void *a) { ACC(a, 4, true); }
void __tsan_unaligned_write8(void *a) { ACC(a, 8, true); }
void __tsan_unaligned_write16(void *a) { ACC(a, 16, true); }
void __tsan_volatile_read1(void *a) { ACC(a, 1, false); }
void __tsan_volatile_read2(void *a) { ACC(a, 2, false); }
void __tsan_volatile_read4(void *a) { ACC(a, 4, false); }
void __tsan_volatile_read8(void *a) { ACC(a, 8, false); }
void __tsan_volatile_write1(void *a) { ACC(a, 1, true); }
void __tsan_volatile_write2(void *a) { ACC(a, 2, true); }
void __tsan_volatile_write4(void *a) { ACC(a, 4, true); }
void __tsan_volatile_write8(void *a) { ACC(a, 8, true); }
void __tsan_read_range(void *a, long n) { if (n > 0) ACC(a, (size_t)n, false); }
void __tsan_write_range(void *a, long n) { if (n > 0) ACC(a, (size_t)n, true); }
void __tsan_vptr_update(void **a, void *v) { if (*a != v) ACC(a, 8, true); }
void __tsan_vptr_read(void **a) { ACC(a, 8, false); }
void *__tsan_memcpy(void *d, const void *s, size_t n) {
  if (n) { ACC(s, n, false); ACC(d, n, true); }
  return memcpy(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, size_t n) {
  if (n) { ACC(s, n, false); ACC(d, n, true); }
  return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, size_t n) {
  if (n) ACC(d, n, true);
  return memset(d, c, n);
}
}

// ---- atomics --------------------------------------------------------------------------------------------------
static inline u64 rd(u64 a, u32 s) {
  switch (s) {
  case 1: return *(volatile u8 *)a;
  case 2: return *(volatile uint16_t *)a;
  case 4: return *(volatile u32 *)a;
  default: return *(volatile u64 *)a;
  }
}
static inline void wr(u64 a, u32 s, u64 v) {
  switch (s) {
  case 1: *(volatile u8 *)a = (u8)v; break;
  case 2: *(volatile uint16_t *)a = (uint16_t)v; break;
  case 4: *(volatile u32 *)a = (u32)v; break;
  default: *(volatile u64 *)a = v;
  }
}
static inline u64 trunc_(u64 v, u32 s) { return s == 8 ? v : v & ((1ull << (8 * s)) - 1); }
static inline bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

static void init_msg(ALoc &L) {
  L.n = 1;
  L.dirty = false;
  Msg &m = L.m[0];
  m.val = rd(L.addr, L.size);
  memset(&m.hb, 0, sizeof(VC));
  memset(&m.w, 0, sizeof(VC));
  for (int i = 0; i < NC; i++) m.seen[i] = INF;
}
static ALoc &aloc(u64 a, u32 s) {
  Gran &g = gran(a & ~7ull);
  if (g.agen != curgen) {
    g.agen = curgen;
    g.aidx = 0;
  }
  bool overlap = false;
  for (u32 i = g.aidx; i; i = (u32)alocs[i - 1].next) {
    ALoc &L = alocs[i - 1];
    if (L.addr == a && L.size == s) {
      if (L.dirty) { bool mx = L.mixed; init_msg(L); L.mixed = mx; }
      return L;
    }
    if (L.addr < a + s && a < L.addr + L.size) overlap = true;
  }
  if (overlap) {
    // mixed-size accesses: one location for the whole granule, always the latest value
    for (u32 i = g.aidx; i; i = (u32)alocs[i - 1].next) alocs[i - 1].mixed = true;
  }
  if (n_alocs == alocs.size()) alocs.emplace_back();
  ALoc &L = alocs[n_alocs++];
  L.addr = a;
  L.size = s;
  L.next = (int)g.aidx;
  L.mixed = overlap;
  init_msg(L);
  g.aidx = (u32)n_alocs;
  return alocs[n_alocs - 1];
}
static void sc_fence(Fiber &f) {
  f.w.join(scW);
  f.w.c[MAXT] = scT;
  scW = f.w;
}
static void fence(int mo) {
  Fiber &f = F[cur];
  if (is_acq(mo)) {
    f.hb.join(f.ahb);
    f.w.join(f.aw);
  }
  if (mo == __ATOMIC_SEQ_CST) sc_fence(f);
  if (is_rel(mo)) {
    f.rhb = f.hb;
    f.rw = f.w;
  }
}
static inline void tickclk(Fiber &f) {
  u32 c = ++f.hb.c[cur];
  f.w.c[cur] = c;
}
// mixed granules: synchronisation is kept in the message of every overlapping loc
static void mixed_acquire(u64 a, u32 s, Fiber &f, bool acq) {
  Gran &g = gran(a & ~7ull);
  for (u32 i = g.aidx; i; i = (u32)alocs[i - 1].next) {
    ALoc &L = alocs[i - 1];
    if (L.addr < a + s && a < L.addr + L.size) {
      Msg &m = L.m[L.n - 1];
      f.ahb.join(m.hb);
      f.aw.join(m.w);
      if (acq) {
        f.hb.join(m.hb);
        f.w.join(m.w);
      }
    }
  }
}
static void do_acquire(Fiber &f, Msg &m, int mo) {
  f.ahb.join(m.hb);
  f.aw.join(m.w);
  if (is_acq(mo)) {
    f.hb.join(m.hb);
    f.w.join(m.w);
  }
}
static inline void sc_mark(Msg &m, int mo) {
  if (mo == __ATOMIC_SEQ_CST && m.seen[MAXT] == INF) m.seen[MAXT] = ++scT;
}
static u64 a_load(u64 a, u32 s, int mo, void *pc) {
  if (!inexec || cur < 0) return rd(a, s);
  point();
  Fiber &f = F[cur];
  tickclk(f);
  total_loads++;
  check_access(a, s, false, true, pc);
  ALoc &L = aloc(a, s);
  if (L.mixed) {
    mixed_acquire(a, s, f, is_acq(mo));
    return rd(a, s);
  }
  int k = L.n - 1;
  if (L.m[k].val != rd(a, s)) { // written by code that is not instrumented
    init_msg(L);
    k = 0;
  }
  if (weak_sim && L.n > 1) {
    int fl = k;
    VC scv;
    if (mo == __ATOMIC_SEQ_CST) scv = f.w, scv.join(scW), scv.c[MAXT] = scT;
    VC const &v = mo == __ATOMIC_SEQ_CST ? scv : f.w;
    for (; fl > 0; fl--) {
      bool forced = false;
      for (int u = 0; u < NC; u++)
        if (L.m[fl].seen[u] <= v.c[u]) { forced = true; break; }
      if (forced) break;
    }
    if (fl < k) {
      if (replaying() || strat == S_DFS) k -= choose(k - fl + 1);
      else {
        int d = 0;
        if (!fairphase && (rnext() & 255) < stale_p) d = 1 + (int)rn((u32)(k - fl));
        choices.push_back((u8)d);
        k -= d;
      }
      if (k != L.n - 1) total_stale++;
    }
  }
  Msg &m = L.m[k];
  if (m.seen[cur] == INF) m.seen[cur] = f.hb.c[cur];
  do_acquire(f, m, mo);
  sc_mark(m, mo);
  return m.val;
}
static void push_msg(ALoc &L, Fiber &f, u64 v, int mo, Msg *prev) {
  VC phb, pw;
  if (prev) phb = prev->hb, pw = prev->w;
  if (L.n == KM) {
    memmove(&L.m[0], &L.m[1], sizeof(Msg) * (KM - 1));
    L.n--;
  }
  Msg &m = L.m[L.n++];
  m.val = v;
  if (is_rel(mo)) m.hb = f.hb, m.w = f.w;
  else m.hb = f.rhb, m.w = f.rw;
  if (prev) m.hb.join(phb), m.w.join(pw);
  for (int i = 0; i < NC; i++) m.seen[i] = INF;
  m.seen[cur] = f.hb.c[cur];
  sc_mark(m, mo);
}
static void a_store(u64 a, u32 s, u64 v, int mo, void *pc) {
  v = trunc_(v, s);
  if (!inexec || cur < 0) { wr(a, s, v); return; }
  point();
  Fiber &f = F[cur];
  tickclk(f);
  check_access(a, s, true, true, pc);
  ALoc &L = aloc(a, s);
  if (L.mixed) {
    wr(a, s, v);
    Gran &g = gran(a & ~7ull);
    for (u32 i = g.aidx; i; i = (u32)alocs[i - 1].next) {
      ALoc &M = alocs[i - 1];
      if (M.addr < a + s && a < M.addr + M.size) {
        Msg pm = M.m[M.n - 1];
        push_msg(M, f, rd(M.addr, M.size), mo, &pm);
      }
    }
  } else {
    push_msg(L, f, v, mo, nullptr);
    wr(a, s, v);
  }
  tickclk(f); // what follows is not released by this store
}
enum Op { XCHG, ADD, SUB, AND, OR, XOR, NAND };
static u64 apply(Op o, u64 x, u64 v) {
  switch (o) {
  case XCHG: return v;
  case ADD: return x + v;
  case SUB: return x - v;
  case AND: return x & v;
  case OR: return x | v;
  case XOR: return x ^ v;
  default: return ~(x & v);
  }
}
static void rmw_core(u64 a, u32 s, u64 old, u64 nv, int mo) {
  Fiber &f = F[cur];
  ALoc &L = aloc(a, s);
  if (L.mixed) {
    mixed_acquire(a, s, f, is_acq(mo));
    wr(a, s, nv);
    Gran &g = gran(a & ~7ull);
    for (u32 i = g.aidx; i; i = (u32)alocs[i - 1].next) {
      ALoc &M = alocs[i - 1];
      if (M.addr < a + s && a < M.addr + M.size) {
        Msg pm = M.m[M.n - 1];
        push_msg(M, f, rd(M.addr, M.size), mo, &pm);
      }
    }
    return;
  }
  if (L.m[L.n - 1].val != old) init_msg(L);
  Msg pm = L.m[L.n - 1];
  do_acquire(f, pm, mo);
  push_msg(L, f, nv, mo, &pm);
  wr(a, s, nv);
}
static u64 a_rmw(u64 a, u32 s, u64 v, Op o, int mo, void *pc) {
  if (!inexec || cur < 0) {
    u64 x = rd(a, s);
    wr(a, s, trunc_(apply(o, x, v), s));
    return x;
  }
  point();
  Fiber &f = F[cur];
  tickclk(f);
  check_access(a, s, true, true, pc);
  u64 x = rd(a, s);
  rmw_core(a, s, x, trunc_(apply(o, x, v), s), mo);
  tickclk(f);
  return x;
}
static bool a_cas(u64 a, u32 s, u64 *exp, u64 des, int mo, int fmo, bool wk, void *pc) {
  if (!inexec || cur < 0) {
    u64 x = rd(a, s);
    if (x == trunc_(*exp, s)) { wr(a, s, trunc_(des, s)); return true; }
    *exp = x;
    return false;
  }
  point();
  Fiber &f = F[cur];
  tickclk(f);
  u64 x = rd(a, s);
  bool ok = x == trunc_(*exp, s);
  if (ok && wk && !fairphase) {
    // spurious failure of a weak CAS
    int c;
    if (replaying()) c = choose(2);
    else if (strat == S_DFS) { c = 0; choices.push_back(0); }
    else { c = (rnext() & 31) == 0; choices.push_back((u8)c); }
    if (c) ok = false;
  }
  check_access(a, s, ok, true, pc);
  if (ok) {
    rmw_core(a, s, x, trunc_(des, s), mo);
    tickclk(f);
    return true;
  }
  ALoc &L = aloc(a, s);
  if (L.mixed) mixed_acquire(a, s, f, is_acq(fmo));
  else {
    if (L.m[L.n - 1].val != x) init_msg(L);
    Msg &m = L.m[L.n - 1];
    if (m.seen[cur] == INF) m.seen[cur] = f.hb.c[cur];
    do_acquire(f, m, fmo);
    sc_mark(m, fmo);
  }
  *exp = x;
  return false;
}

#define PC __builtin_return_address(0)
#define ATOM(N, T, S)                                                                                                       \
  extern "C" T __tsan_atomic##N##_load(const volatile T *a, int mo) { return (T)a_load((u64)a, S, mo, PC); }                  \
  extern "C" void __tsan_atomic##N##_store(volatile T *a, T v, int mo) { a_store((u64)a, S, (u64)v, mo, PC); }                \
  extern "C" T __tsan_atomic##N##_exchange(volatile T *a, T v, int mo) { return (T)a_rmw((u64)a, S, (u64)v, XCHG, mo, PC); }  \
  extern "C" T __tsan_atomic##N##_fetch_add(volatile T *a, T v, int mo) { return (T)a_rmw((u64)a, S, (u64)v, ADD, mo, PC); }  \
  extern "C" T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, int mo) { return (T)a_rmw((u64)a, S, (u64)v, SUB, mo, PC); }  \
  extern "C" T __tsan_atomic##N##_fetch_and(volatile T *a, T v, int mo) { return (T)a_rmw((u64)a, S, (u64)v, AND, mo, PC); }  \
  extern "C" T __tsan_atomic##N##_fetch_or(volatile T *a, T v, int mo) { return (T)a_rmw((u64)a, S, (u64)v, OR, mo, PC); }    \
  extern "C" T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, int mo) { return (T)a_rmw((u64)a, S, (u64)v, XOR, mo, PC); }  \
  extern "C" T __tsan_atomic##N##_fetch_nand(volatile T *a, T v, int mo) { return (T)a_rmw((u64)a, S, (u64)v, NAND, mo, PC); }\
  extern "C" int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *e, T d, int mo, int fmo) {                      \
    u64 x = (u64)*e;                                                                                                         \
    bool r = a_cas((u64)a, S, &x, (u64)d, mo, fmo, false, PC);                                                                \
    if (!r) *e = (T)x;                                                                                                       \
    return r;                                                                                                                \
  }                                                                                                                          \
  extern "C" int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *e, T d, int mo, int fmo) {                        \
    u64 x = (u64)*e;                                                                                                         \
    bool r = a_cas((u64)a, S, &x, (u64)d, mo, fmo, true, PC);                                                                 \
    if (!r) *e = (T)x;                                                                                                       \
    return r;                                                                                                                \
  }                                                                                                                          \
  extern "C" T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T e, T d, int mo, int fmo) {                            \
    u64 x = (u64)e;                                                                                                          \
    a_cas((u64)a, S, &x, (u64)d, mo, fmo, false, PC);                                                                         \
    return (T)x;                                                                                                             \
  }
ATOM(8, u8, 1)
ATOM(16, uint16_t, 2)
ATOM(32, u32, 4)
ATOM(64, u64, 8)
extern "C" void __tsan_atomic_thread_fence(int mo) {
  if (!inexec || cur < 0) return;
  if (mo == __ATOMIC_SEQ_CST) point();
  tickclk(F[cur]);
  fence(mo);
  tickclk(F[cur]);
}
extern "C" void __tsan_atomic_signal_fence(int) {}

// ---- heap interposition ---------------------------------------------------------------------------------------
extern "C" {
void *__wrap_malloc(size_t n) { return inexec ? arena_alloc(n, 16, 0) : __libc_malloc(n); }
void __wrap_free(void *p) {
  if (!p) return;
  if (in_arena((u64)p)) arena_free(p, 0, PC);
  else __libc_free(p);
}
void *__wrap_calloc(size_t a, size_t b) {
  if (!inexec) return __libc_calloc(a, b);
  void *p = arena_alloc(a * b, 16, 0);
  if (p) memset(p, 0, a * b);
  return p;
}
void *__wrap_realloc(void *p, size_t n) {
  if (p && !in_arena((u64)p)) return __libc_realloc(p, n);
  if (!inexec) return __libc_realloc(p, n);
  void *q = arena_alloc(n, 16, 0);
  if (p && q) {
    Blk &b = blks[blkat[(u64)p]];
    memcpy(q, p, b.size < n ? b.size : n);
    arena_free(p, 0, PC);
  }
  return q;
}
void *__wrap_aligned_alloc(size_t al, size_t n) { return inexec ? arena_alloc(n, al, 0) : __libc_memalign(al, n); }
// allocations made inside shared libraries: keep libc's allocator, forget old access history
void *malloc(size_t n) {
  void *p = __libc_malloc(n);
  if (inexec && p) shadow_clear((u64)p, n);
  return p;
}
void free(void *p) {
  if (in_arena((u64)p)) { arena_free(p, 0, PC); return; }
  __libc_free(p);
}
void *calloc(size_t a, size_t b) {
  void *p = __libc_calloc(a, b);
  if (inexec && p) shadow_clear((u64)p, a * b);
  return p;
}
void *realloc(void *q, size_t n) {
  void *p = __libc_realloc(q, n);
  if (inexec && p) shadow_clear((u64)p, n);
  return p;
}
}
} // namespace vp

static void *opnew(size_t n, size_t al) {
  using namespace vp;
  if (inexec) return arena_alloc(n ? n : 1, al, al > 16 ? 2 : 1);
  return al > 16 ? __libc_memalign(al, n) : __libc_malloc(n ? n : 1);
}
static void opdel(void *p, int kind, void *pc) {
  if (!p) return;
  if (vp::in_arena((u64)p)) vp::arena_free(p, kind, pc);
  else __libc_free(p);
}
#define RPC __builtin_return_address(0)
void *operator new(size_t n) {
  void *p = opnew(n, 16);
  if (!p) throw std::bad_alloc();
  return p;
}
void *operator new[](size_t n) {
  void *p = opnew(n, 16);
  if (!p) throw std::bad_alloc();
  return p;
}
void *operator new(size_t n, std::nothrow_t const &) noexcept { return opnew(n, 16); }
void *operator new[](size_t n, std::nothrow_t const &) noexcept { return opnew(n, 16); }
void *operator new(size_t n, std::align_val_t a) {
  void *p = opnew(n, std::max<size_t>((size_t)a, 32));
  if (!p) throw std::bad_alloc();
  return p;
}
void *operator new[](size_t n, std::align_val_t a) {
  void *p = opnew(n, std::max<size_t>((size_t)a, 32));
  if (!p) throw std::bad_alloc();
  return p;
}
void operator delete(void *p) noexcept { opdel(p, 1, RPC); }
void operator delete[](void *p) noexcept { opdel(p, 1, RPC); }
void operator delete(void *p, size_t) noexcept { opdel(p, 1, RPC); }
void operator delete[](void *p, size_t) noexcept { opdel(p, 1, RPC); }
void operator delete(void *p, std::align_val_t) noexcept { opdel(p, 2, RPC); }
void operator delete[](void *p, std::align_val_t) noexcept { opdel(p, 2, RPC); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { opdel(p, 2, RPC); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { opdel(p, 2, RPC); }
void operator delete(void *p, std::nothrow_t const &) noexcept { opdel(p, 1, RPC); }
void operator delete[](void *p, std::nothrow_t const &) noexcept { opdel(p, 1, RPC); }

namespace vp {
// ---- threads ---------------------------------------------------------------------------------------------------
// thread_local objects of the harness' module die with their thread: to everybody else that is a write
static u64 tls_size;
static int tls_cb(dl_phdr_info *i, size_t, void *) {
  for (int k = 0; k < i->dlpi_phnum; k++)
    if (i->dlpi_phdr[k].p_type == PT_TLS) tls_size = (i->dlpi_phdr[k].p_memsz + 63) & ~63ull;
  return 1; // only the executable
}
static void tls_exit(Fiber &f, void *pc) {
  if (!tls_size) dl_iterate_phdr(tls_cb, nullptr);
  tickclk(f);
  for (u64 a = f.fs - tls_size; a < f.fs; a += 8) {
    Page *pg = page_of(a >> 12, false);
    if (!pg) continue;
    Gran &g = pg->g[(a >> 3) & 511];
    if (g.tgen == curgen) check_access(a, 8, true, false, pc);
  }
}
static void fiber_main() {
  for (;;) {
    Fiber &f = F[cur];
    f.ret = f.fn(f.arg);
    int me = cur;
    tls_exit(f, (void *)&tls_exit);
    tickclk(F[me]);
    F[me].st = DONE;
    for (int i = 0; i < nF; i++)
      if (F[i].st == JOIN && F[i].jtarget == me) {
        F[i].st = RUN;
        F[i].hb.join(F[me].hb);
        F[i].w.join(F[me].w);
      }
    tick_step();
    resched(true); // never returns to a DONE fiber
    fprintf(stderr, "vprt: resumed a finished thread\n");
    _exit(2);
  }
}
static int spawn(void *(*fn)(void *), void *arg) {
  // reuse a joined slot if none is left
  int t = -1;
  if (nF < MAXT) t = nF++;
  else
    for (int i = 1; i < MAXT; i++)
      if (F[i].st == DONE && F[i].joined) { t = i; break; }
  if (t < 0) { inexec = false; write_result("error", "too many threads", -1); _exit(2); }
  Fiber &f = F[t];
  VC old = f.hb;
  bool reuse = f.st == DONE;
  f.st = RUN;
  f.yielded = false;
  f.detached = f.joined = f.woken = false;
  f.fn = fn;
  f.arg = arg;
  f.ign = 0;
  f.nyield = 0;
  f.prio = (long)(rnext() >> 40) + 1000000;
  if (cur >= 0) {
    tickclk(F[cur]);
    f.hb = F[cur].hb;
    f.w = F[cur].w;
  } else {
    f.hb = gclock;
    f.w = gclock;
  }
  if (reuse) { f.hb.join(old); f.w.join(old); }
  memset(&f.rhb, 0, sizeof(VC));
  memset(&f.rw, 0, sizeof(VC));
  memset(&f.ahb, 0, sizeof(VC));
  memset(&f.aw, 0, sizeof(VC));
  f.hb.c[t]++;
  f.w.c[t] = f.hb.c[t];
  if (cur >= 0) tickclk(F[cur]);
  // initial stack
  u64 *sp = (u64 *)(f.stack + STK);
  sp = (u64 *)((u64)sp & ~63ull);
  *--sp = 0;
  *--sp = (u64)&fiber_main;
  for (int i = 0; i < 6; i++) *--sp = 0;
  f.sp = sp;
  shadow_clear((u64)f.stack + STK - 16384, 16384);
  return t;
}
} // namespace vp

using namespace vp;
template <class T> static T real(const char *n) {
  static_assert(sizeof(T) == 8);
  void *p = dlsym(RTLD_NEXT, n);
  T t;
  memcpy(&t, &p, 8);
  return t;
}
static int tid_of(pthread_t p) {
  for (int i = 0; i < nF; i++)
    if (F[i].pt == p) return i;
  return -1;
}
extern "C" {
int pthread_create(pthread_t *th, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
  if (!inexec || cur < 0) {
    static auto r = real<int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)>("pthread_create");
    return r(th, at, fn, arg);
  }
  int t = spawn(fn, arg);
  *th = F[t].pt;
  point();
  return 0;
}
int pthread_join(pthread_t th, void **ret) {
  if (!inexec || cur < 0) {
    static auto r = real<int (*)(pthread_t, void **)>("pthread_join");
    return r(th, ret);
  }
  int t = tid_of(th);
  if (t < 0) return ESRCH;
  point();
  if (F[t].st != DONE) {
    F[cur].st = JOIN;
    F[cur].jtarget = t;
    block();
  } else {
    F[cur].hb.join(F[t].hb);
    F[cur].w.join(F[t].w);
  }
  F[t].joined = true;
  if (ret) *ret = F[t].ret;
  return 0;
}
int pthread_detach(pthread_t th) {
  if (!inexec || cur < 0) {
    static auto r = real<int (*)(pthread_t)>("pthread_detach");
    return r(th);
  }
  int t = tid_of(th);
  if (t >= 0) F[t].detached = true;
  return 0;
}
// std::atomic::wait spins with a few sched_yield calls before it parks: those must not keep a thread from parking
int sched_yield() {
  if (inexec && cur >= 0) {
    Fiber &f = F[cur];
    if (f.nyield++ % 16 < 6) vp::point();
    else vp::yield();
  }
  return 0;
}
int nanosleep(const timespec *a, timespec *b) {
  if (inexec && cur >= 0) { vp::yield(); return 0; }
  return (int)real<long (*)(const timespec *, timespec *)>("nanosleep")(a, b);
}
int clock_nanosleep(clockid_t c, int fl, const timespec *a, timespec *b) {
  if (inexec && cur >= 0) { vp::yield(); return 0; }
  return real<int (*)(clockid_t, int, const timespec *, timespec *)>("clock_nanosleep")(c, fl, a, b);
}
int usleep(useconds_t us) {
  if (inexec && cur >= 0) { vp::yield(); return 0; }
  timespec t{(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
  return nanosleep(&t, nullptr);
}
// futex through syscall()
static long futex_wait_(u64 a, u32 val) {
  point();
  if (*(volatile u32 *)a != val) { errno = EAGAIN; return -1; }
  Fiber &f = F[cur];
  n_futex_wait++;
  f.st = FUTEX;
  f.waddr = a;
  f.wval = val;
  f.woken = false;
  f.nyield = 0;
  block();
  return 0;
}
// A wake takes a waiter that has seen an older value if there is one (the kernel queue is first-in first-out and the C++
// standard only counts such waiters as eligible to be unblocked), else any.
static long futex_wake_(u64 a, long n) {
  point();
  n_futex_wake++;
  long k = 0;
  while (k < n) {
    int w[MAXT], m = 0;
    for (int i = 0; i < nF; i++)
      if (F[i].st == FUTEX && F[i].waddr == a) w[m++] = i;
    if (!m) break;
    int e = 0;
    for (int i = 0; i < m; i++)
      if (F[w[i]].wval != *(volatile u32 *)a) std::swap(w[e++], w[i]);
    if (e) m = e;
    int i = w[n - k < m ? choose(m) : 0];
    F[i].st = RUN;
    F[i].woken = true;
    k++;
  }
  return k;
}
long syscall(long nr, ...) {
  va_list ap;
  va_start(ap, nr);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (nr == SYS_futex && inexec && cur >= 0) {
    int op = (int)b & FUTEX_CMD_MASK;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) return futex_wait_((u64)a, (u32)c);
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) return futex_wake_((u64)a, (int)c);
  }
  long r;
  register long r10 asm("r10") = d;
  register long r8 asm("r8") = e;
  register long r9 asm("r9") = f;
  asm volatile("syscall" : "=a"(r) : "a"(nr), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}
} // extern C
namespace vp {
long futex_wakes() { return n_futex_wake; }
long futex_waits() { return n_futex_wait; }
// mutexes (not used by the library today; a change may introduce them)
struct Mx { int owner = -1, depth = 0; VC hb{}, w{}; };
static Map<u64, Mx> mxs;
static Map<u64, int> guards;
static Map<u64, VC> guard_hb;
}
extern "C" {
int pthread_mutex_lock(pthread_mutex_t *m) {
  if (!inexec || cur < 0) {
    static auto r = real<int (*)(pthread_mutex_t *)>("pthread_mutex_lock");
    return r(m);
  }
  point();
  Mx &x = mxs[(u64)m];
  if (x.owner == cur) { x.depth++; return 0; }
  while (mxs[(u64)m].owner >= 0) {
    F[cur].st = MUTEX;
    F[cur].waddr = (u64)m;
    block();
  }
  Mx &y = mxs[(u64)m];
  y.owner = cur;
  y.depth = 1;
  F[cur].hb.join(y.hb);
  F[cur].w.join(y.w);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
  if (!inexec || cur < 0) {
    static auto r = real<int (*)(pthread_mutex_t *)>("pthread_mutex_trylock");
    return r(m);
  }
  point();
  Mx &x = mxs[(u64)m];
  if (x.owner >= 0 && x.owner != cur) return EBUSY;
  x.owner = cur;
  x.depth++;
  F[cur].hb.join(x.hb);
  F[cur].w.join(x.w);
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
  if (!inexec || cur < 0) {
    static auto r = real<int (*)(pthread_mutex_t *)>("pthread_mutex_unlock");
    return r(m);
  }
  Mx &x = mxs[(u64)m];
  tickclk(F[cur]);
  if (--x.depth <= 0) {
    x.owner = -1;
    x.depth = 0;
    x.hb = F[cur].hb;
    x.w = F[cur].w;
    for (int i = 0; i < nF; i++)
      if (F[i].st == MUTEX && F[i].waddr == (u64)m) F[i].st = RUN;
  }
  tickclk(F[cur]);
  point();
  return 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  if (!inexec || cur < 0) {
    static auto r = real<int (*)(pthread_cond_t *, pthread_mutex_t *)>("pthread_cond_wait");
    return r(c, m);
  }
  F[cur].st = COND;
  F[cur].waddr = (u64)c;
  Mx &x = mxs[(u64)m];
  tickclk(F[cur]);
  x.owner = -1;
  x.depth = 0;
  x.hb = F[cur].hb;
  x.w = F[cur].w;
  for (int i = 0; i < nF; i++)
    if (F[i].st == MUTEX && F[i].waddr == (u64)m) F[i].st = RUN;
  block();
  return pthread_mutex_lock(m);
}
static int cond_wake(pthread_cond_t *c, bool all) {
  point();
  for (;;) {
    int w[MAXT], n = 0;
    for (int i = 0; i < nF; i++)
      if (F[i].st == COND && F[i].waddr == (u64)c) w[n++] = i;
    if (!n) break;
    F[w[all ? 0 : choose(n)]].st = RUN;
    if (!all) break;
  }
  return 0;
}
int pthread_cond_signal(pthread_cond_t *c) {
  if (!inexec || cur < 0) {
    static auto r = real<int (*)(pthread_cond_t *)>("pthread_cond_signal");
    return r(c);
  }
  return cond_wake(c, false);
}
int pthread_cond_broadcast(pthread_cond_t *c) {
  if (!inexec || cur < 0) {
    static auto r = real<int (*)(pthread_cond_t *)>("pthread_cond_broadcast");
    return r(c);
  }
  return cond_wake(c, true);
}
// function-local statics
int __cxa_guard_acquire(long long *g) {
  if (*(volatile u8 *)g) return 0;
  if (!inexec || cur < 0) return 1;
  u64 a = (u64)g;
  while (guards.count(a)) {
    F[cur].st = GUARD;
    F[cur].waddr = a;
    block();
    if (*(volatile u8 *)g) return 0;
  }
  guards[a] = cur;
  return 1;
}
static void guard_rel(long long *g, bool ok) {
  if (ok) *(volatile u8 *)g = 1;
  if (!inexec || cur < 0) return;
  guards.erase((u64)g);
  for (int i = 0; i < nF; i++)
    if (F[i].st == GUARD && F[i].waddr == (u64)g) {
      F[i].st = RUN;
      F[i].hb.join(F[cur].hb);
      F[i].w.join(F[cur].w);
    }
}
void __cxa_guard_release(long long *g) { guard_rel(g, true); }
void __cxa_guard_abort(long long *g) { guard_rel(g, false); }
}
// deterministic entropy for the pools
static u64 rdev = 1;
extern "C" unsigned _ZNSt13random_device9_M_getvalEv(void *) {
  u64 x = rdev++ * 0x2545F4914F6CDD1Dull + (inexec ? hrs : 0);
  return (unsigned)(splitmix(x) >> 16);
}

// ---- crash handling ------------------------------------------------------------------------------------------------
static void on_signal(int sig, siginfo_t *si, void *) {
  static int depth = 0;
  if (depth++) _exit(1);
  set_fs(base_fs);
  if (!inexec) {
    signal(sig, SIG_DFL);
    raise(sig);
    _exit(2);
  }
  trace += "F crash;";
  char b[200];
  snprintf(b, sizeof b, "crash: signal %d (%s) in t%d, address %p", sig, sig == SIGABRT ? "abort/assertion" : sig == SIGSEGV ? "segfault" : "fault", cur, si ? si->si_addr : nullptr);
  stop_bad("fault", b, nev);
}

// user CPU time passes without a scheduling point being reached: an endless loop in the code under test
static void on_tick(int, siginfo_t *, void *) {
  static long le = -1, ls = -1;
  static int same = 0;
  if (!inexec || cur < 0 || le != g_exec || ls != g_steps) {
    le = g_exec, ls = g_steps, same = 0;
    return;
  }
  if (++same < 10) return;
  set_fs(base_fs);
  trace += "F hang;";
  char b[100];
  snprintf(b, sizeof b, "hang: t%d runs for ever without doing anything observable", cur);
  stop_bad("fault", b, nev);
}

static void *donor_main(void *p) {
  *(u64 *)p = get_fs();
  __atomic_store_n((u64 *)p + MAXT, 1, __ATOMIC_RELEASE);
  for (;;) pause();
  return nullptr;
}
static void *main_body(void *) {
  vp::test();
  return nullptr;
}

static void run_one(long idx) {
  u64 s = opt_seed * 0x9e3779b97f4a7c15ull + (u64)idx * 0xd1342543de82ef95ull + 1;
  rs[0] = splitmix(s);
  rs[1] = splitmix(s) | 1;
  hrs = splitmix(s);
  rdev = 1;
  strat = opt_strat;
  if (opt_strat == S_RANDOM && opt_mix && (idx % 3) == 2) strat = S_PCT;
  static const u32 sp[] = {8, 32, 80, 140, 230};
  switch_p = sp[rn(5)];
  static const u32 st[] = {0, 20, 90, 200};
  stale_p = st[rn(4)];
  weak_sim = opt_weak;
  leak_on = opt_leak;
  g_steps = consec = 0;
  fairphase = false;
  n_futex_wait = n_futex_wake = 0;
  quiescing = -1;
  choices.clear();
  trace.clear();
  tag.clear();
  nev = 0;
  regs.clear();
  faulted = false;
  dfs_pos = 0;
  dfs_pre = 0;
  curgen++;
  n_alocs = 0;
  mxs.clear();
  guards.clear();
  arena_reset();
  pct_points.clear();
  pct_i = 0;
  pct_low = 0;
  if (strat == S_PCT) {
    int d = 1 + (int)rn(4);
    long L = (long)(avg_steps * 1.3) + 10;
    for (int i = 0; i < d; i++) pct_points.push_back((long)rn((u32)L));
    std::sort(pct_points.begin(), pct_points.end());
  }
  for (int i = 0; i < MAXT; i++) F[i].st = FREE, F[i].hb = F[i].w = gclock;
  memset(&scW, 0, sizeof scW);
  scT = 1;
  nF = 0;
  cur = -1;
  base_fs = get_fs();
  spawn(main_body, nullptr);
  inexec = true;
  switch_to(0);
  // back in the base context: all fibers finished
  inexec = false;
  for (int i = 0; i < nF; i++) gclock.join(F[i].hb);
  for (int i = 0; i < MAXT; i++) gclock.c[i]++;
  if (gclock.c[0] > 0xf0000000u) { write_result("error", "clock overflow", -1); _exit(2); }
  total_steps += g_steps;
  avg_steps = avg_steps * 0.95 + g_steps * 0.05;
  n_execs++;
  if (leak_on && a_liveblk) {
    char b[400];
    int k = snprintf(b, sizeof b, "leak: %ld blocks (%ld bytes) not released:", a_liveblk, a_live);
    int c = 0;
    for (auto &x : blks)
      if (x.st == 1 && x.track && c++ < 6) k += snprintf(b + k, sizeof b - k, " #%u:%lu", x.id, (unsigned long)x.size);
    trace += "F leak;";
    stop_bad("fault", b, nev);
  }
}

static void judge() {
  // end of the execution: every thread finished
  if (first_trace.empty()) first_trace = trace, first_tag = tag;
  u64 h = hstr(tag, trace);
  bool fresh = seen_traces.size() < 4000000 && seen_traces.insert(h).second;
  if (!fresh) return;
  bool matched = false;
  for (auto *x : auts) {
    if (!x->dinit.count(tag)) continue;
    matched = true;
    n_judged++;
    long r = x->run(tag, trace);
    if (r >= 0) {
      char b[400];
      // find the token
      size_t p = 0;
      for (long i = 0; i < r; i++) p = trace.find(';', p) + 1;
      size_t e = trace.find(';', p);
      snprintf(b, sizeof b, "specification rejects event #%ld '%.*s'", r, (int)std::min<size_t>(e - p, 200), trace.c_str() + p);
      stop_bad("rejected", b, r);
    }
  }
  if (!matched && !auts.empty() && !dumpf) {
    write_result("error", "no specification automaton for this program", -1);
    _exit(2);
  }
  if (dumpf && n_dumped < opt_dumpmax) {
    fprintf(dumpf, "%s|%s\n", tag.c_str(), trace.c_str());
    n_dumped++;
  }
}

int main(int argc, char **argv) {
  g_args = {argc, argv};
  Args &A = g_args;
  opt_seed = (u64)A.num("seed", 1);
  opt_execs = A.num("execs", 1000000000);
  opt_from = A.num("from", 0);
  opt_time = atof(A.get("time", "10"));
  opt_out = A.get("out");
  opt_dump = A.get("dump");
  opt_dumpmax = A.num("dumpmax", 2000);
  opt_weak = A.num("weak", 0);
  opt_race = A.num("race", 1);
  opt_leak = A.num("leak", 1);
  opt_mix = A.num("mix", 1);
  opt_print = A.num("print", 0);
  opt_bound = (int)A.num("bound", 2);
  opt_maxsteps = A.num("maxsteps", 400000);
  const char *s = A.get("strat", "random");
  opt_strat = !strcmp(s, "dfs") ? S_DFS : !strcmp(s, "pct") ? S_PCT : S_RANDOM;
  if (const char *c = A.get("choices")) {
    opt_strat = S_REPLAY;
    FILE *f = c[0] == '@' ? fopen(c + 1, "r") : nullptr;
    Str buf;
    if (f) {
      int ch;
      while ((ch = fgetc(f)) != EOF) buf += (char)ch;
      fclose(f);
      c = buf.c_str();
    }
    while (*c) {
      replay_choices.push_back((u8)strtol(c, (char **)&c, 10));
      if (*c == ',') c++;
      else break;
    }
    opt_execs = 1;
  }
  // automata: --aut=file,file...
  if (const char *a = A.get("aut")) {
    Str all = a;
    size_t p = 0;
    while (p < all.size()) {
      size_t e = all.find(',', p);
      if (e == Str::npos) e = all.size();
      Aut *x = new Aut;
      x->load(all.substr(p, e - p).c_str());
      auts.push_back(x);
      p = e + 1;
    }
  }
  t0 = now();
#ifndef HWCAP2_FSGSBASE
#define HWCAP2_FSGSBASE (1 << 1)
#endif
  have_fsgsbase = getauxval(AT_HWCAP2) & HWCAP2_FSGSBASE;
  base_fs = get_fs();
  if (mmap((void *)AB, AS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void *)AB) {
    fprintf(stderr, "cannot map arena\n");
    return 2;
  }
  astate = (u8 *)mmap(nullptr, AS / 16 + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  char *stks = (char *)mmap((void *)0x210000000000ull, STK * MAXT + 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  static u64 dinfo[MAXT * 2 + 2];
  sigset_t vt; // the tick must interrupt the thread that runs the executions
  sigemptyset(&vt);
  sigaddset(&vt, SIGVTALRM);
  pthread_sigmask(SIG_BLOCK, &vt, nullptr);
  memset(&gclock, 0, sizeof gclock);
  for (int i = 0; i < MAXT; i++) {
    gclock.c[i] = 1;
    F[i].stack = stks + STK * i;
    mprotect(stks + STK * i, 4096, PROT_NONE);
    u64 *d = (u64 *)__libc_calloc(MAXT + 2, 8);
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 65536);
    if (pthread_create(&donors[i], &at, donor_main, d)) { perror("donor"); return 2; }
    while (!__atomic_load_n(d + MAXT, __ATOMIC_ACQUIRE)) sched_yield();
    F[i].fs = d[0];
    F[i].pt = donors[i];
  }
  (void)dinfo;
  static char sigstk[65536];
  stack_t ss{};
  ss.ss_sp = sigstk;
  ss.ss_size = sizeof sigstk;
  sigaltstack(&ss, nullptr);
  struct sigaction sa {};
  sa.sa_sigaction = on_signal;
  sa.sa_flags = SA_ONSTACK | SA_SIGINFO | SA_NODEFER;
  for (int g : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL}) sigaction(g, &sa, nullptr);
  sa.sa_sigaction = on_tick;
  sa.sa_flags = SA_ONSTACK | SA_SIGINFO | SA_RESTART;
  sigaction(SIGVTALRM, &sa, nullptr);
  pthread_sigmask(SIG_UNBLOCK, &vt, nullptr);
  itimerval itv{{0, 500000}, {0, 500000}};
  setitimer(ITIMER_VIRTUAL, &itv, nullptr);
  if (opt_dump) dumpf = fopen(opt_dump, "w");
  seen_traces.reserve(1 << 16);
  trace.reserve(1 << 16);

  vp::setup(A);
  t0 = now();
  for (long i = 0; i < opt_execs; i++) {
    if ((i & 15) == 0 && now() - t0 > opt_time) break;
    g_exec = opt_from + i;
    run_one(g_exec);
    judge();
    if (opt_strat == S_DFS) {
      while (!dfs.empty() && dfs.back().c + 1 >= dfs.back().n) dfs.pop_back();
      if (dfs.empty()) {
        dfs_done = true;
        break;
      }
      dfs.back().c++;
    }
  }
  vp::finish();
  write_result("ok", "", -1);
  if (dumpf) fclose(dumpf);
  fflush(nullptr);
  _exit(0);
}
