// vprt: controlled execution of unmodified, compiler-instrumented (-fsanitize=thread) code.
//
// The harness is compiled with gcc's ThreadSanitizer instrumentation but linked against this
// runtime instead of libtsan.  Every std::thread of the code under test becomes a fiber that the
// runtime schedules; every atomic access is a scheduling point whose result is drawn from the
// values the C++ memory model allows; plain accesses are checked for data races; heap blocks are
// tracked.  Executions emit a trace of observable events which is judged by an automaton that TLC
// generated from a TLA+ specification, and/or dumped for validation by TLC.
#pragma once
#include <cstddef>
#include <cstdint>

namespace vp {

constexpr int MAXT = 12;

// ---- provided by the harness ----
struct Args {
  int argc;
  char **argv;
  const char *get(const char *name, const char *dflt = nullptr) const;
  long num(const char *name, long dflt) const;
};
void setup(Args const &);     // once, before the first execution (not tracked)
void test();                  // the body of one execution, run as logical thread 0
void finish();                // after the last execution

// ---- for use inside an execution ----
int self();                                  // logical thread id
bool active();                               // true inside an execution
void point();                                // scheduling point
void yield();                                // let somebody else run first
int choose(int n);                           // nondeterministic choice 0..n-1
void spin_until(bool (*pred)(void *), void *arg); // wait (no HB edge) until the predicate holds
void quiesce(int steps);                     // let the others run until they block (or `steps` steps)
void ev(const char *kind);                   // emit observable events
void ev(const char *kind, long a);
void ev(const char *kind, long a, long b);
void ev(const char *kind, long a, long b, long c);
void ev(const char *kind, long a, long b, long c, long d);
void ev(const char *kind, long a, long b, long c, long d, long e);
void fault(const char *what, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void set_trace_tag(const char *tag);         // first line of the trace (which program was run)

// live regions: exclusive address ranges that must not overlap
void region_enter(const void *p, std::size_t n);
void region_exit(const void *p);

// memory
void fail_alloc_after(long n);               // the n-th allocation of this thread from now on fails (once); <0: off
long alloc_count();                          // tracked allocations so far in this execution
long live_bytes();                           // tracked live bytes
long live_blocks();
long peak_bytes();
void reset_peak();
void leak_check(bool on);                    // leak check at the end of this execution
void tracking(bool on);                      // allocations made while off are not counted as leaks

// futex statistics of the current execution
long futex_wakes();
long futex_waits();

// blocked?
bool is_blocked(int tid);                    // fiber blocked in futex/join/mutex
int nthreads();                              // number of logical threads created so far (incl. 0)
bool is_done(int tid);

// switches
void weak(bool on);                          // weak-memory values for atomic loads
bool weak_on();
long execs_done();
long steps();
std::uint64_t rnd();                         // harness random (from the execution's seed), not a recorded choice
void ignore_begin();                         // plain accesses of the current fiber not race-checked
void ignore_end();
} // namespace vp
