// Stand-ins for the code outside the contracts: console output, and the OpenMP run-time
// (thread count and number are chosen by the harness).
#include "etc/types.h"
#include "etc/debug.h"
void print(Mat M) {}
void print(double x) {}
void print(std::string x) {}
// The OpenMP run-time, as the standard describes it, executed one thread after the other in either order (only translation units
// compiled with -fopenmp call it). A barrier with more than one thread is outside it.
#include "omp_sim.h"
#include <unistd.h>
int omp_threads_ = 1, omp_id_ = 0, omp_order_ = 0;
namespace { struct Loop { bool on = false; long next, end, incr, chunk, left; }; std::vector<Loop> loops; size_t nth = 0; bool inside = false; Loop preset; bool has_preset = false; }
static void team(void (*fn)(void *), void *data, int n) {
  if (inside) { int t = omp_threads_, i = omp_id_; omp_threads_ = 1; omp_id_ = 0; fn(data); omp_threads_ = t; omp_id_ = i; return; }
  int was = omp_threads_; if (n > 0) omp_threads_ = n; loops.clear(); if (has_preset) loops.push_back(preset); inside = true;
  for (int k = 0; k < omp_threads_; k++) { omp_id_ = omp_order_ ? omp_threads_ - 1 - k : k; nth = has_preset ? 1 : 0; if (has_preset) loops[0].left = (loops[0].end - loops[0].next) / loops[0].incr / omp_threads_ + 1; fn(data); }
  inside = false; has_preset = false; omp_id_ = 0; omp_threads_ = was;
}
static bool more(Loop &l, long *a, long *b) {
  bool last = omp_order_ ? omp_id_ == 0 : omp_id_ == omp_threads_ - 1; long rest = (l.end - l.next + l.incr - (l.incr > 0 ? 1 : -1)) / l.incr; if (rest <= 0 || (!last && l.left <= 0)) return false;
  long c = std::min(rest, std::max(1L, l.chunk)); l.left -= c; *a = l.next; *b = l.next + c * l.incr; l.next = *b; return true;
}
static size_t current = 0;
extern "C" {
int omp_get_num_threads() { return inside ? omp_threads_ : 1; }
int omp_get_thread_num() { return omp_id_; }
int omp_get_max_threads() { return omp_threads_; }
int omp_in_parallel() { return inside; }
void omp_set_num_threads(int n) {}
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) { team(fn, data, n); }
void GOMP_barrier() { if (inside && omp_threads_ > 1) _exit(4); }
bool GOMP_single_start() { return omp_order_ ? omp_id_ == omp_threads_ - 1 : omp_id_ == 0; }
void GOMP_critical_start() {} void GOMP_critical_end() {} void GOMP_critical_name_start(void **) {} void GOMP_critical_name_end(void **) {} void GOMP_atomic_start() {} void GOMP_atomic_end() {}
#define LOOP(kind) bool GOMP_loop_##kind##_next(long *a, long *b) { return more(loops[current], a, b); } \
  bool GOMP_loop_##kind##_start(long s, long e, long i, long c, long *a, long *b) { if (loops.size() <= nth) { Loop l; l.next = s; l.end = e; l.incr = i; l.chunk = c; loops.push_back(l); } current = nth++; Loop &l = loops[current]; l.left = (e - s) / i / omp_threads_ + 1; return more(l, a, b); } \
  void GOMP_parallel_loop_##kind(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, long c, unsigned) { preset.next = s; preset.end = e; preset.incr = i; preset.chunk = c; has_preset = true; current = 0; team(fn, data, n); }
LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
#undef LOOP
#define LOOP(kind) bool GOMP_loop_##kind##_next(long *a, long *b) { return GOMP_loop_dynamic_next(a, b); } bool GOMP_loop_##kind##_start(long s, long e, long i, long *a, long *b) { return GOMP_loop_dynamic_start(s, e, i, 1, a, b); } \
  void GOMP_parallel_loop_##kind(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, unsigned f) { GOMP_parallel_loop_dynamic(fn, data, n, s, e, i, 1, f); }
LOOP(runtime) LOOP(maybe_nonmonotonic_runtime) LOOP(nonmonotonic_runtime)
void GOMP_loop_end() { if (inside && omp_threads_ > 1) _exit(4); }
void GOMP_loop_end_nowait() {}
}
