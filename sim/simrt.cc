// Deterministic-simulation runtime, linked into the simulated _graphillion.so.
//
// It replaces every source of nondeterminism / failure the library meets:
//   * the OpenMP runtime        -> cooperative fibers + seeded scheduler (GOMP_*, omp_*)
//   * data-race interleavings   -> __tsan_* access callbacks are preemption points
//   * the Python GIL hand-over  -> PyEval_SaveThread/RestoreThread are baton points
//   * the allocator             -> malloc/new wrappers with planned failures and poison
//   * files and pipes           -> dup/fdopen wrappers serving simulated files
//   * node table sizing         -> bddinit wrapper (initial size, limit)
// All choices are drawn from one PRNG (or from an explicit plan set by the driver).
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <Python.h>
#include <cxxabi.h>
#include <errno.h>
#include <malloc.h>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>

#include <map>
#include <new>
#include <vector>

#define EXPORT extern "C" __attribute__((visibility("default")))

typedef unsigned long long u64;

// ------------------------------------------------------------------ raw alloc
extern "C" void* __real_malloc(size_t);
extern "C" void __real_free(void*);
extern "C" void* __real_calloc(size_t, size_t);
extern "C" void* __real_realloc(void*, size_t);

// simrt's own containers must not go through the wrapped operator new
template <class T>
struct RawAlloc {
  typedef T value_type;
  RawAlloc() {}
  template <class U> RawAlloc(const RawAlloc<U>&) {}
  T* allocate(size_t n) { return (T*)__real_malloc(n * sizeof(T)); }
  void deallocate(T* p, size_t) { __real_free(p); }
  template <class U> bool operator==(const RawAlloc<U>&) const { return true; }
  template <class U> bool operator!=(const RawAlloc<U>&) const { return false; }
};
template <class T> using Vec = std::vector<T, RawAlloc<T> >;

// ------------------------------------------------------------------ PRNG / log
struct Rng {
  u64 s;
  u64 next() {
    u64 z = (s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
  }
  u64 below(u64 n) { return n ? next() % n : 0; }
};

enum Key {
  K_NODE_INIT = 0,     // override of the initial node table size (0: as asked)
  K_NODE_LIMIT,        // override of the node table limit (0: as asked)
  K_DENY_BIG,          // malloc of >= this many bytes ...
  K_DENY_PERMILLE,     // ... fails with this probability (per mille)
  K_MALLOC_FAIL_AT,    // the n-th malloc from now fails (1-based, 0: off)
  K_NEW_FAIL_AT,       // the n-th operator new from now throws (0: off)
  K_THREADS,           // OpenMP max threads
  K_PROCS,             // OpenMP processor count
  K_TEAM_SHRINK,       // per mille: a parallel region gets a smaller team
  K_PREEMPT_MEAN,      // mean accesses between preemptions in a region (0: off)
  K_STRATEGY,          // 0 uniform random, 1 sticky priority (PCT-like), 2 round robin
  K_POISON,            // fill fresh / freed memory
  K_PT_PREEMPT_MEAN,   // same, for GIL-released regions of Python threads
  K_DENY_FAIL_MALLOC_SMALL, // per mille failure of any malloc
  K_NEW_FAIL_PERMILLE,
  K_DENY_MAX,          // malloc of >= K_DENY_MAX bytes always fails (0: off)
  K_GC_PPM,            // node collection before a node is created (parts per million)
  K_CONFLICT,          // per cent: preempt a worker right before an access that conflicts with another worker's
  K_COUNT
};
static long cfg[K_COUNT];

enum Counter {
  C_MALLOC = 0, C_MALLOC_FAIL, C_NEW, C_NEW_FAIL, C_REGIONS, C_SWITCH, C_PREEMPT,
  C_TEAM_SHRUNK, C_BARRIER, C_BADFREE, C_ACCESS, C_GIL_RELEASE, C_PT_SWITCH,
  C_IO_WRITE, C_IO_READ, C_IO_FAULT, C_IO_SHORT, C_PIPE_BLOCK, C_DEADLOCK,
  C_GIL_BLOCK, C_TABLE_DENIED, C_BDDINIT, C_LOOP, C_SINGLE, C_CRITICAL, C_FDLEAK,
  C_BIGMALLOC, C_FORCED_GC, C_CONFLICT, C_COUNT
};
static u64 ctr[C_COUNT];
static u64 g_hash = 1469598103934665603ULL;  // schedule/event hash
static Rng rng_sched = {1}, rng_fault = {2};

static inline void ev(u64 a, u64 b) {
  g_hash = (g_hash ^ (a * 0x9E3779B97F4A7C15ULL + b)) * 1099511628211ULL;
  g_hash ^= g_hash >> 29;
}

EXPORT void sim_seed(u64 s) {
  rng_sched.s = s * 2 + 1;
  rng_fault.s = s * 2 + 0x51ED27;
}
EXPORT long sim_set(int k, long v) { long o = cfg[k]; cfg[k] = v; return o; }
EXPORT long sim_get(int k) { return cfg[k]; }
EXPORT u64 sim_counter(int c) { return ctr[c]; }
EXPORT u64 sim_hash() { return g_hash; }

static void sim_die(const char* why) __attribute__((noreturn));
static void sim_die(const char* why) {
  // reported to the driver through stderr + a reserved exit status
  fprintf(stderr, "SIM-FATAL %s\n", why);
  fflush(stderr);
  _exit(97);
}

// ------------------------------------------------------------------ conflicting accesses
// Which worker touched which word since the last barrier; entries of older epochs are free slots.
// New memory starts untouched, so that the outcome does not depend on where blocks happen to lie.
struct Acc { uintptr_t a; unsigned epoch; unsigned short rd, wr; };
static const unsigned ACC_N = 1u << 18;
static Acc acc_tab[ACC_N];
static unsigned acc_epoch = 1, acc_used = 0;
static bool acc_on = false;
static void acc_reset() { acc_epoch++; acc_used = 0; }
static Acc* acc_find(uintptr_t w, bool add) {
  unsigned h = (unsigned)((w * 0x9E3779B97F4A7C15ULL) >> 40) & (ACC_N - 1);
  while (acc_tab[h].epoch == acc_epoch && acc_tab[h].a != w) h = (h + 1) & (ACC_N - 1);
  Acc* e = &acc_tab[h];
  if (e->epoch == acc_epoch) return e;
  if (!add) return NULL;
  if (acc_used >= ACC_N / 2) { acc_reset(); return acc_find(w, true); }
  acc_used++;
  e->a = w; e->epoch = acc_epoch; e->rd = e->wr = 0;
  return e;
}
static void acc_fresh(void* p, size_t n) {
  if (!acc_on || !p) return;
  for (uintptr_t w = (uintptr_t)p >> 3; w <= ((uintptr_t)p + n - 1) >> 3; w++) {
    Acc* e = acc_find(w, false);
    if (e) e->rd = e->wr = 0;
  }
}

// ------------------------------------------------------------------ allocator
static bool g_alloc_on = false;
EXPORT void sim_alloc_arm(int on) { g_alloc_on = on != 0; }

static inline void poison(void* p, size_t n, int c) {
  if (!cfg[K_POISON] || !p) return;
  memset(p, c, n > 8192 ? 8192 : n);
}

static bool malloc_should_fail(size_t n) {
  if (cfg[K_DENY_MAX] && (long)n >= cfg[K_DENY_MAX]) { ctr[C_TABLE_DENIED]++; return true; }
  if (cfg[K_DENY_BIG] && (long)n >= cfg[K_DENY_BIG]) {
    ctr[C_BIGMALLOC]++;
    if ((long)rng_fault.below(1000) < cfg[K_DENY_PERMILLE]) { ctr[C_TABLE_DENIED]++; return true; }
  }
  if (!g_alloc_on) return false;
  if (cfg[K_MALLOC_FAIL_AT] > 0 && --cfg[K_MALLOC_FAIL_AT] == 0) return true;
  if (cfg[K_DENY_FAIL_MALLOC_SMALL] &&
      (long)rng_fault.below(1000) < cfg[K_DENY_FAIL_MALLOC_SMALL]) return true;
  return false;
}

extern "C" void* __wrap_malloc(size_t n) {
  ctr[C_MALLOC]++;
  if (malloc_should_fail(n)) { ctr[C_MALLOC_FAIL]++; ev(11, n); errno = ENOMEM; return NULL; }
  void* p = __real_malloc(n);
  acc_fresh(p, n);
  poison(p, n, 0xA5);
  return p;
}
extern "C" void* __wrap_calloc(size_t a, size_t b) {
  ctr[C_MALLOC]++;
  if (malloc_should_fail(a * b)) { ctr[C_MALLOC_FAIL]++; ev(11, a * b); errno = ENOMEM; return NULL; }
  void* p = __real_calloc(a, b);
  acc_fresh(p, a * b);
  return p;
}
extern "C" void* __wrap_realloc(void* p, size_t n) {
  ctr[C_MALLOC]++;
  if (malloc_should_fail(n)) { ctr[C_MALLOC_FAIL]++; ev(11, n); errno = ENOMEM; return NULL; }
  p = __real_realloc(p, n);
  acc_fresh(p, n);
  return p;
}
extern "C" void __wrap_free(void* p) {
  if (p && cfg[K_POISON]) { size_t n = malloc_usable_size(p); poison(p, n, 0x5A); }
  __real_free(p);
}

static void* sim_new(size_t n) {
  ctr[C_NEW]++;
  if (g_alloc_on) {
    if (cfg[K_NEW_FAIL_AT] > 0 && --cfg[K_NEW_FAIL_AT] == 0) {
      ctr[C_NEW_FAIL]++; ev(12, n); throw std::bad_alloc();
    }
    if (cfg[K_NEW_FAIL_PERMILLE] && (long)rng_fault.below(1000) < cfg[K_NEW_FAIL_PERMILLE]) {
      ctr[C_NEW_FAIL]++; ev(12, n); throw std::bad_alloc();
    }
  }
  void* p = __real_malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  acc_fresh(p, n ? n : 1);
  poison(p, n, 0xA5);
  return p;
}
static void sim_delete(void* p) {
  if (p && cfg[K_POISON]) { size_t n = malloc_usable_size(p); poison(p, n, 0x5A); }
  __real_free(p);
}
extern "C" void* __wrap__Znwm(size_t n) { return sim_new(n); }
extern "C" void* __wrap__Znam(size_t n) { return sim_new(n); }
extern "C" void __wrap__ZdlPv(void* p) { sim_delete(p); }
extern "C" void __wrap__ZdaPv(void* p) { sim_delete(p); }
extern "C" void __wrap__ZdlPvm(void* p, size_t) { sim_delete(p); }
extern "C" void __wrap__ZdaPvm(void* p, size_t) { sim_delete(p); }

// ------------------------------------------------------------------ node table
extern "C" int __real__Z7bddinityy(u64, u64);
extern "C" int __wrap__Z7bddinityy(u64 init, u64 limit) {
  ctr[C_BDDINIT]++;
  if (cfg[K_NODE_INIT]) init = cfg[K_NODE_INIT];
  if (cfg[K_NODE_LIMIT]) limit = cfg[K_NODE_LIMIT];
  return __real__Z7bddinityy(init, limit);
}

// asked by the guarded hook in bddc.cc: "the node table is full now"
EXPORT int sim_collect_now(void) {
  if (!cfg[K_GC_PPM]) return 0;
  if ((long)rng_fault.below(1000000) >= cfg[K_GC_PPM]) return 0;
  ctr[C_FORCED_GC]++;
  return 1;
}

// ------------------------------------------------------------------ Python threads
// One "baton": only its holder runs.  Every hand-over is drawn from rng_sched.
struct PyThr {
  pthread_cond_t cv;
  bool go, done, blocked_pipe, holds_gil_blocked;
  int pipe;
  bool pipe_read;
};
static const int MAXPT = 16;
static PyThr pt[MAXPT];
static int npt = 0, pt_cur = -1;
static bool pt_on = false;
extern "C" int __real_pthread_mutex_lock(pthread_mutex_t*);
static pthread_mutex_t pt_mu = PTHREAD_MUTEX_INITIALIZER;
static __thread int pt_self = -1;
static __thread int pt_nogil = 0;      // depth of GIL-released regions of the library
static __thread long pt_countdown = 0;
static Vec<unsigned char>* pt_trace = NULL;

static bool pipe_ready(int pipe, bool rd);

static bool pt_runnable(int i) {
  if (pt[i].done) return false;
  if (pt[i].blocked_pipe) return pipe_ready(pt[i].pipe, pt[i].pipe_read);
  return true;
}

// pick next; must hold pt_mu.  returns -1 if nobody can run
static int pt_pick() {
  int c[MAXPT], n = 0;
  for (int i = 0; i < npt; i++) if (pt_runnable(i)) c[n++] = i;
  if (!n) return -1;
  int k = c[rng_sched.below(n)];
  return k;
}

static void pt_handover(bool leaving) {
  __real_pthread_mutex_lock(&pt_mu);
  int me = pt_self;
  int nx = pt_pick();
  if (nx < 0) {
    bool all = true;
    for (int i = 0; i < npt; i++) if (!pt[i].done) all = false;
    if (!all) { ctr[C_DEADLOCK]++; sim_die("deadlock: every caller thread is blocked"); }
    pt_cur = -1;
    pthread_mutex_unlock(&pt_mu);
    return;
  }
  ev(21, nx);
  if (nx != me) {
    ctr[C_PT_SWITCH]++;
    pt_cur = nx;
    pt[nx].go = true;
    pthread_cond_signal(&pt[nx].cv);
    if (!leaving) {
      while (!pt[me].go) pthread_cond_wait(&pt[me].cv, &pt_mu);
    }
  }
  if (!leaving) pt[me].go = false;
  pthread_mutex_unlock(&pt_mu);
}

EXPORT void sim_pt_begin(int n) {
  npt = n; pt_on = true; pt_cur = -1;
  for (int i = 0; i < n; i++) {
    pthread_cond_init(&pt[i].cv, NULL);
    pt[i].go = pt[i].done = pt[i].blocked_pipe = false;
  }
}
// called (GIL released) by each worker thread before anything else
EXPORT void sim_pt_enter(int id) {
  pt_self = id;
  __real_pthread_mutex_lock(&pt_mu);
  while (!pt[id].go) pthread_cond_wait(&pt[id].cv, &pt_mu);
  pt[id].go = false;
  pthread_mutex_unlock(&pt_mu);
}
// called by the main thread once all workers are started
EXPORT void sim_pt_start() {
  __real_pthread_mutex_lock(&pt_mu);
  int nx = pt_pick();
  pt_cur = nx;
  pt[nx].go = true;
  pthread_cond_signal(&pt[nx].cv);
  pthread_mutex_unlock(&pt_mu);
}
EXPORT void sim_pt_yield() { if (pt_on && pt_self >= 0) pt_handover(false); }
EXPORT void sim_pt_leave() {
  if (!pt_on || pt_self < 0) return;
  pt[pt_self].done = true;
  pt_handover(true);
  pt_self = -1;
}
EXPORT void sim_pt_end() { pt_on = false; npt = 0; }

extern "C" PyThreadState* __real_PyEval_SaveThread(void);
extern "C" void __real_PyEval_RestoreThread(PyThreadState*);
extern "C" PyThreadState* __wrap_PyEval_SaveThread(void) {
  PyThreadState* t = __real_PyEval_SaveThread();
  ctr[C_GIL_RELEASE]++;
  pt_nogil++;
  pt_countdown = 0;
  if (pt_on && pt_self >= 0) pt_handover(false);
  return t;
}
extern "C" void __wrap_PyEval_RestoreThread(PyThreadState* t) {
  if (pt_on && pt_self >= 0) pt_handover(false);
  pt_nogil--;
  __real_PyEval_RestoreThread(t);
}

// a mutex of the code under test: its waiter hands the baton over instead of blocking for real
extern "C" int __real_pthread_mutex_lock(pthread_mutex_t*);
extern "C" int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  if (!pt_on || pt_self < 0) return __real_pthread_mutex_lock(m);
  for (long n = 0; ; n++) {
    int r = pthread_mutex_trylock(m);
    if (r != EBUSY) return r;
    if (PyGILState_Check() || n > 1000000) sim_die("deadlock: waiting for a mutex");
    pt_handover(false);
  }
}

// ------------------------------------------------------------------ OpenMP fibers
struct WS { long next, end, incr, chunk; bool init, single_taken; int sections; long count; };
struct Fiber {
  ucontext_t ctx;
  char* stack;
  bool done, waiting_barrier;
  void* waiting_lock;
  int ws_idx;
  long prio;
  void* eh_caught; unsigned eh_uncaught;
};
static const int MAXT = 64;
static const size_t STK = 1 << 20;
struct Team {
  int n, cur, at_barrier, alive;
  Fiber f[MAXT];
  Vec<WS> ws;
  void (*fn)(void*);
  void* data;
};
static Team* team = NULL;
static int nested = 0;
static long omp_threads_icv = 0;
static char* stack_pool[MAXT];
static long countdown = 0;
static void* critical_owner[8];
static int rr_next = 0;

struct cxa_globals { void* caught; unsigned uncaught; };

static long draw_countdown(long mean) {
  if (mean <= 0) return 1L << 40;
  return 1 + (long)rng_sched.below(2 * mean);
}

static bool runnable(Team* t, int i) {
  Fiber& f = t->f[i];
  return !f.done && !f.waiting_barrier && f.waiting_lock == NULL;
}

static void switch_to(Team* t, int nx) {
  int me = t->cur;
  if (nx == me) return;
  ctr[C_SWITCH]++;
  ev(31, nx);
  cxa_globals* g = (cxa_globals*)abi::__cxa_get_globals();
  t->f[me].eh_caught = g->caught; t->f[me].eh_uncaught = g->uncaught;
  t->cur = nx;
  g->caught = t->f[nx].eh_caught; g->uncaught = t->f[nx].eh_uncaught;
  swapcontext(&t->f[me].ctx, &t->f[nx].ctx);
}

static int pick(Team* t) {
  int c[MAXT], n = 0;
  for (int i = 0; i < t->n; i++) if (runnable(t, i)) c[n++] = i;
  if (!n) { ctr[C_DEADLOCK]++; sim_die("deadlock: parallel region"); }
  if (cfg[K_STRATEGY] == 1) {
    if (rng_sched.below(8) == 0) t->f[c[rng_sched.below(n)]].prio = (long)rng_sched.below(1 << 20);
    int b = c[0];
    for (int i = 1; i < n; i++) if (t->f[c[i]].prio > t->f[b].prio) b = c[i];
    return b;
  }
  if (cfg[K_STRATEGY] == 2) {
    for (int k = 1; k <= t->n; k++) { int i = (t->cur + k) % t->n; if (runnable(t, i)) return i; }
  }
  return c[rng_sched.below(n)];
}

static inline void omp_point() {
  if (team && team->n > 1) switch_to(team, pick(team));
}

static void fiber_finish(Team* t) {
  t->f[t->cur].done = true;
  t->alive--;
}

static void fiber_main() {
  Team* t = team;
  t->fn(t->data);
  t = team;
  fiber_finish(t);
  for (;;) switch_to(t, t->alive == 0 ? 0 : pick(t));
}

static void barrier_wait(Team* t) {
  ctr[C_BARRIER]++;
  if (++t->at_barrier == t->n) {
    t->at_barrier = 0;
    acc_reset();
    for (int i = 0; i < t->n; i++) t->f[i].waiting_barrier = false;
    omp_point();
    return;
  }
  t->f[t->cur].waiting_barrier = true;
  switch_to(t, pick(t));
}

static long maxthr() {
  if (omp_threads_icv > 0) return omp_threads_icv;
  return cfg[K_THREADS] > 0 ? cfg[K_THREADS] : 1;
}

EXPORT void GOMP_parallel(void (*fn)(void*), void* data, unsigned num_threads, unsigned) {
  if (team) {  // nested: serialised
    nested++;
    fn(data);
    nested--;
    return;
  }
  int n = num_threads ? (int)num_threads : (int)maxthr();
  if (n > MAXT) n = MAXT;
  ctr[C_REGIONS]++;
  if (n > 1 && cfg[K_TEAM_SHRINK] && (long)rng_fault.below(1000) < cfg[K_TEAM_SHRINK]) {
    n = 1 + (int)rng_fault.below(n);
    ctr[C_TEAM_SHRUNK]++;
  }
  Team* t = new (__real_malloc(sizeof(Team))) Team();
  t->n = n; t->cur = 0; t->at_barrier = 0; t->alive = n; t->fn = fn; t->data = data;
  cxa_globals* g = (cxa_globals*)abi::__cxa_get_globals();
  for (int i = 0; i < n; i++) {
    Fiber& f = t->f[i];
    f.done = f.waiting_barrier = false; f.waiting_lock = NULL; f.ws_idx = 0;
    f.prio = (long)rng_sched.below(1 << 20);
    f.eh_caught = NULL; f.eh_uncaught = 0;
    if (i) {
      if (!stack_pool[i])
        stack_pool[i] = (char*)mmap(NULL, STK, PROT_READ | PROT_WRITE,
                                    MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      getcontext(&f.ctx);
      f.ctx.uc_stack.ss_sp = stack_pool[i];
      f.ctx.uc_stack.ss_size = STK;
      f.ctx.uc_link = NULL;
      makecontext(&f.ctx, fiber_main, 0);
    }
  }
  (void)g;
  team = t;
  acc_reset();
  acc_on = n > 1 && cfg[K_CONFLICT] > 0;
  ev(30, n);
  countdown = draw_countdown(cfg[K_PREEMPT_MEAN]);
  omp_point();
  fn(data);
  fiber_finish(t);
  while (t->alive > 0) switch_to(t, pick(t));
  // back on the caller's stack with everybody finished
  team = NULL;
  acc_on = false;
  t->~Team();
  __real_free(t);
}

static WS& ws_get() {
  Team* t = team;
  int i = t->f[t->cur].ws_idx++;
  while ((int)t->ws.size() <= i) { WS w; memset(&w, 0, sizeof w); t->ws.push_back(w); }
  return t->ws[i];
}
static WS& ws_cur() { return team->ws[team->f[team->cur].ws_idx - 1]; }
static WS serial_ws;

static bool loop_next(WS& w, long* is, long* ie) {
  if (w.incr > 0 ? w.next >= w.end : w.next <= w.end) return false;
  long step = w.chunk * w.incr;
  *is = w.next;
  long e = w.next + step;
  if (w.incr > 0 ? e > w.end : e < w.end) e = w.end;
  *ie = e;
  w.next = e;
  ev(33, (u64)*is);
  return true;
}
static bool loop_start(long s, long e, long incr, long chunk, long* is, long* ie) {
  ctr[C_LOOP]++;
  if (!team || nested) {
    serial_ws.next = s; serial_ws.end = e; serial_ws.incr = incr; serial_ws.chunk = chunk ? chunk : 1;
    return loop_next(serial_ws, is, ie);
  }
  omp_point();
  WS& w = ws_get();
  if (!w.init) { w.init = true; w.next = s; w.end = e; w.incr = incr; w.chunk = chunk > 0 ? chunk : 1; }
  return loop_next(w, is, ie);
}
static bool loop_next_any(long* is, long* ie) {
  if (!team || nested) return loop_next(serial_ws, is, ie);
  omp_point();
  return loop_next(ws_cur(), is, ie);
}
#define LOOPKIND(name) \
  EXPORT bool GOMP_loop_##name##_start(long s, long e, long i, long c, long* a, long* b) { return loop_start(s, e, i, c, a, b); } \
  EXPORT bool GOMP_loop_##name##_next(long* a, long* b) { return loop_next_any(a, b); } \
  EXPORT bool GOMP_loop_ull_##name##_start(bool up, u64 s, u64 e, u64 i, u64 c, u64* a, u64* b) { (void)up; return loop_start(s, e, i, c, (long*)a, (long*)b); } \
  EXPORT bool GOMP_loop_ull_##name##_next(u64* a, u64* b) { return loop_next_any((long*)a, (long*)b); }
LOOPKIND(dynamic)
LOOPKIND(nonmonotonic_dynamic)
LOOPKIND(guided)
LOOPKIND(nonmonotonic_guided)
LOOPKIND(static)
#define LOOPRT(name) \
  EXPORT bool GOMP_loop_##name##_start(long s, long e, long i, long* a, long* b) { return loop_start(s, e, i, 1, a, b); } \
  EXPORT bool GOMP_loop_##name##_next(long* a, long* b) { return loop_next_any(a, b); } \
  EXPORT bool GOMP_loop_ull_##name##_start(bool up, u64 s, u64 e, u64 i, u64* a, u64* b) { (void)up; return loop_start(s, e, i, 1, (long*)a, (long*)b); } \
  EXPORT bool GOMP_loop_ull_##name##_next(u64* a, u64* b) { return loop_next_any((long*)a, (long*)b); }
LOOPRT(runtime)
LOOPRT(nonmonotonic_runtime)
LOOPRT(maybe_nonmonotonic_runtime)

EXPORT void GOMP_barrier() { if (team && !nested) barrier_wait(team); }
EXPORT void GOMP_loop_end() { GOMP_barrier(); }
EXPORT void GOMP_loop_end_nowait() { if (team && !nested) omp_point(); }
EXPORT bool GOMP_single_start() {
  ctr[C_SINGLE]++;
  if (!team || nested) return true;
  omp_point();
  WS& w = ws_get();
  if (w.single_taken) return false;
  w.single_taken = true;
  ev(34, team->cur);
  return true;
}
static void lock_acquire(void** lk) {
  ctr[C_CRITICAL]++;
  if (!team) return;
  omp_point();
  while (*lk != NULL && *lk != (void*)(intptr_t)(team->cur + 1)) {
    team->f[team->cur].waiting_lock = lk;
    switch_to(team, pick(team));
  }
  *lk = (void*)(intptr_t)(team->cur + 1);
}
static void lock_release(void** lk) {
  if (!team) return;
  *lk = NULL;
  for (int i = 0; i < team->n; i++)
    if (team->f[i].waiting_lock == lk) team->f[i].waiting_lock = NULL;
  omp_point();
}
EXPORT void GOMP_critical_start() { lock_acquire(&critical_owner[0]); }
EXPORT void GOMP_critical_end() { lock_release(&critical_owner[0]); }
EXPORT void GOMP_critical_name_start(void** p) { lock_acquire(p); }
EXPORT void GOMP_critical_name_end(void** p) { lock_release(p); }
EXPORT void GOMP_atomic_start() { lock_acquire(&critical_owner[1]); }
EXPORT void GOMP_atomic_end() { lock_release(&critical_owner[1]); }
EXPORT unsigned GOMP_sections_start(unsigned n) {
  if (!team || nested) { serial_ws.sections = n; serial_ws.count = 0; return n ? ++serial_ws.count : 0; }
  omp_point();
  WS& w = ws_get();
  if (!w.init) { w.init = true; w.sections = n; w.count = 0; }
  return w.count < w.sections ? ++w.count : 0;
}
EXPORT unsigned GOMP_sections_next() {
  if (!team || nested) return serial_ws.count < serial_ws.sections ? ++serial_ws.count : 0;
  omp_point();
  WS& w = ws_cur();
  return w.count < w.sections ? ++w.count : 0;
}
EXPORT void GOMP_sections_end() { GOMP_barrier(); }
EXPORT void GOMP_sections_end_nowait() {}

EXPORT int omp_get_thread_num() { return team && !nested ? team->cur : 0; }
EXPORT int omp_get_num_threads() { return team && !nested ? team->n : 1; }
EXPORT int omp_get_max_threads() { return (int)maxthr(); }
EXPORT int omp_get_num_procs() { return cfg[K_PROCS] > 0 ? (int)cfg[K_PROCS] : 1; }
EXPORT void omp_set_num_threads(int n) { if (n > 0) omp_threads_icv = n; }
EXPORT int omp_in_parallel() { return team != NULL; }
EXPORT int omp_get_thread_limit() { return MAXT; }
EXPORT void omp_set_dynamic(int) {}
EXPORT int omp_get_dynamic() { return cfg[K_TEAM_SHRINK] > 0; }
EXPORT void omp_set_nested(int) {}
EXPORT double omp_get_wtime() { return (double)ctr[C_ACCESS] * 1e-9; }
EXPORT void omp_init_lock(void** l) { *l = NULL; }
EXPORT void omp_destroy_lock(void** l) { *l = NULL; }
EXPORT void omp_set_lock(void** l) { lock_acquire(l); }
EXPORT void omp_unset_lock(void** l) { lock_release(l); }

// ------------------------------------------------------------------ access points
static void conflict_point(uintptr_t a, bool wr) {
  Acc* e = acc_find(a >> 3, true);
  unsigned me = 1u << team->cur;
  unsigned others = (wr ? e->rd | e->wr : e->wr) & ~me;
  if (wr) e->wr |= me; else e->rd |= me;
  if (others && (long)rng_sched.below(100) < cfg[K_CONFLICT]) {
    int c[MAXT], n = 0;
    for (int i = 0; i < team->n; i++) if (i != team->cur && runnable(team, i)) c[n++] = i;
    if (n) { ctr[C_CONFLICT]++; switch_to(team, c[rng_sched.below(n)]); }
  }
}

static inline void access_point(const volatile void* a = NULL, bool wr = false) {
  ctr[C_ACCESS]++;
  if (team) {
    if (a && acc_on) conflict_point((uintptr_t)a, wr);
    if (--countdown <= 0) {
      countdown = draw_countdown(cfg[K_PREEMPT_MEAN]);
      if (team->n > 1) { ctr[C_PREEMPT]++; switch_to(team, pick(team)); }
    }
  } else if (pt_nogil > 0 && pt_on) {
    if (--pt_countdown <= 0) {
      pt_countdown = draw_countdown(cfg[K_PT_PREEMPT_MEAN]);
      pt_handover(false);
    }
  }
}
#define ACC(n) EXPORT void __tsan_##n(void* a) { access_point(a, #n[0] == 'w' || strstr(#n, "_write") != NULL); }
ACC(read1) ACC(read2) ACC(read4) ACC(read8) ACC(read16)
ACC(write1) ACC(write2) ACC(write4) ACC(write8) ACC(write16)
ACC(unaligned_read2) ACC(unaligned_read4) ACC(unaligned_read8) ACC(unaligned_read16)
ACC(unaligned_write2) ACC(unaligned_write4) ACC(unaligned_write8) ACC(unaligned_write16)
ACC(volatile_read1) ACC(volatile_read2) ACC(volatile_read4) ACC(volatile_read8) ACC(volatile_read16)
ACC(volatile_write1) ACC(volatile_write2) ACC(volatile_write4) ACC(volatile_write8) ACC(volatile_write16)
ACC(vptr_read)
EXPORT void __tsan_init() {}
EXPORT void __tsan_func_entry(void*) {}
EXPORT void __tsan_func_exit() {}
EXPORT void __tsan_vptr_update(void**, void*) { access_point(); }
EXPORT void __tsan_read_range(void*, size_t) { access_point(); }
EXPORT void __tsan_write_range(void*, size_t) { access_point(); }
#define ATOM(bits, T) \
  EXPORT T __tsan_atomic##bits##_load(const volatile T* a, int) { access_point(); return *a; } \
  EXPORT void __tsan_atomic##bits##_store(volatile T* a, T v, int) { access_point(); *a = v; } \
  EXPORT T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { access_point(); T o = *a; *a = v; return o; } \
  EXPORT T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { access_point(); T o = *a; *a = o + v; return o; } \
  EXPORT T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { access_point(); T o = *a; *a = o - v; return o; } \
  EXPORT T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { access_point(); T o = *a; *a = o & v; return o; } \
  EXPORT T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { access_point(); T o = *a; *a = o | v; return o; } \
  EXPORT T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { access_point(); T o = *a; *a = o ^ v; return o; } \
  EXPORT int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { access_point(); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
  EXPORT int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { access_point(); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
  EXPORT T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int, int) { access_point(); T o = *a; if (o == c) *a = v; return o; }
ATOM(8, unsigned char) ATOM(16, unsigned short) ATOM(32, unsigned int) ATOM(64, u64)
EXPORT void __tsan_atomic_thread_fence(int) {}
EXPORT void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------ simulated files
struct IoFault { long at; int err; };       // at byte offset `at`, fail once with err (sticky if err<0)
struct SimFile {
  bool used;
  Vec<char> data;
  size_t rpos;
  bool is_pipe; size_t cap; bool wclosed;
  Vec<IoFault> wfault, rfault;
  size_t max_chunk;                          // short reads
  size_t written;                            // total bytes accepted
  int open_streams;
};
static const int MAXF = 32;
static SimFile simf[MAXF];
static std::map<int, int, std::less<int>, RawAlloc<std::pair<const int, int> > >* fdmap = NULL;

static void* fdmap_init() {
  if (!fdmap)
    fdmap = new (__real_malloc(sizeof(*fdmap)))
        std::map<int, int, std::less<int>, RawAlloc<std::pair<const int, int> > >();
  return fdmap;
}

EXPORT void sim_file_reset(int id) {
  SimFile& f = simf[id];
  f.used = true; f.data.clear(); f.rpos = 0; f.is_pipe = false; f.cap = 0; f.wclosed = false;
  f.wfault.clear(); f.rfault.clear(); f.max_chunk = 0; f.written = 0; f.open_streams = 0;
}
EXPORT void sim_file_bind(int fd, int id) { fdmap_init(); (*fdmap)[fd] = id; }
EXPORT void sim_file_unbind(int fd) { fdmap_init(); fdmap->erase(fd); }
EXPORT int sim_file_bound() { fdmap_init(); return (int)fdmap->size(); }
EXPORT int sim_file_open_streams(int id) { return simf[id].open_streams; }
EXPORT void sim_file_wfault(int id, long at, int err) { IoFault x = {at, err}; simf[id].wfault.push_back(x); }
EXPORT void sim_file_rfault(int id, long at, int err) { IoFault x = {at, err}; simf[id].rfault.push_back(x); }
EXPORT void sim_file_chunk(int id, long n) { simf[id].max_chunk = n; }
EXPORT void sim_file_pipe(int id, long cap) { simf[id].is_pipe = true; simf[id].cap = cap; }
EXPORT void sim_file_wclose(int id) { simf[id].wclosed = true; }
EXPORT long sim_file_size(int id) { return (long)simf[id].data.size(); }
EXPORT void sim_file_get(int id, char* out) { if (!simf[id].data.empty()) memcpy(out, &simf[id].data[0], simf[id].data.size()); }
EXPORT void sim_file_put(int id, const char* p, long n) {
  simf[id].data.assign(p, p + n); simf[id].rpos = 0; simf[id].written = n;
}

static bool pipe_ready(int id, bool rd) {
  SimFile& f = simf[id];
  if (rd) return f.data.size() > 0 || f.wclosed;
  return f.data.size() < f.cap;
}
static void pipe_block(int id, bool rd) {
  // the calling thread cannot proceed.  If it still owns the GIL, nobody who
  // needs the interpreter can ever unblock it.
  ctr[C_PIPE_BLOCK]++;
  if (!pt_on || pt_self < 0) sim_die("deadlock: blocked on a pipe with no other thread");
  if (pt_nogil == 0 && PyGILState_Check()) {
    ctr[C_GIL_BLOCK]++;
    sim_die("deadlock: blocked on a pipe while holding the interpreter lock");
  }
  pt[pt_self].blocked_pipe = true; pt[pt_self].pipe = id; pt[pt_self].pipe_read = rd;
  pt_handover(false);
  pt[pt_self].blocked_pipe = false;
}

static int take_fault(Vec<IoFault>& v, size_t pos, size_t& n) {
  // earliest pending fault within [pos, pos+n]: shorten n to reach it, or fire
  for (size_t i = 0; i < v.size(); i++) {
    if (v[i].at < 0) continue;
    if ((size_t)v[i].at <= pos) {
      int e = v[i].err;
      if (e > 0) v[i].at = -1; else e = -e;   // sticky when negative
      return e;
    }
    if ((size_t)v[i].at < pos + n) n = (size_t)v[i].at - pos;
  }
  return 0;
}

// emulates write(2) on the simulated device: may be short, may fail
static ssize_t dev_write(int id, const char* p, size_t n) {
  SimFile& f = simf[id];
  ctr[C_IO_WRITE]++;
  if (pt_on && pt_self >= 0 && pt_nogil > 0) pt_handover(false);
  if (n == 0) return 0;
  size_t m = n;
  int e = take_fault(f.wfault, f.written, m);
  if (e) { ctr[C_IO_FAULT]++; ev(41, e); errno = e; return -1; }
  if (f.max_chunk && m > f.max_chunk) m = f.max_chunk;
  if (f.is_pipe) {
    while (!pipe_ready(id, false)) pipe_block(id, false);
    if (m > f.cap - f.data.size()) m = f.cap - f.data.size();
  }
  if (m < n) ctr[C_IO_SHORT]++;
  f.data.insert(f.data.end(), p, p + m);
  f.written += m;
  ev(42, m);
  return (ssize_t)m;
}
static ssize_t dev_read(int id, char* p, size_t n) {
  SimFile& f = simf[id];
  ctr[C_IO_READ]++;
  if (pt_on && pt_self >= 0 && pt_nogil > 0) pt_handover(false);
  if (n == 0) return 0;
  size_t m = n;
  int e = take_fault(f.rfault, f.is_pipe ? 0 : f.rpos, m);
  if (e) { ctr[C_IO_FAULT]++; ev(43, e); errno = e; return -1; }
  if (f.max_chunk && m > f.max_chunk) m = f.max_chunk;
  if (f.is_pipe) {
    while (!pipe_ready(id, true)) pipe_block(id, true);
    if (m > f.data.size()) m = f.data.size();
    if (m) { memcpy(p, &f.data[0], m); f.data.erase(f.data.begin(), f.data.begin() + m); }
  } else {
    size_t left = f.data.size() - f.rpos;
    if (m > left) m = left;
    if (m) memcpy(p, &f.data[f.rpos], m);
    f.rpos += m;
  }
  if (m < n) ctr[C_IO_SHORT]++;
  ev(44, m);
  return (ssize_t)m;
}
// pipe ends used by the harness's own threads (GIL released by ctypes)
EXPORT long sim_pipe_read(int id, char* p, long n) { return dev_read(id, p, n); }
EXPORT long sim_pipe_write(int id, const char* p, long n) {
  long done = 0;
  while (done < n) { ssize_t k = dev_write(id, p + done, n - done); if (k < 0) return -1; done += k; }
  return done;
}

struct Cookie { int id; int fd; };
// stdio semantics of a file stream: loop over short writes, stop at an error
static ssize_t ck_write(void* c, const char* p, size_t n) {
  int id = ((Cookie*)c)->id;
  size_t done = 0;
  while (done < n) {
    ssize_t k = dev_write(id, p + done, n - done);
    if (k < 0) return (ssize_t)done;  // short count: stdio sets its error flag
    done += k;
  }
  return (ssize_t)done;
}
static ssize_t ck_read(void* c, char* p, size_t n) { return dev_read(((Cookie*)c)->id, p, n); }
static int ck_close(void* c) {
  Cookie* k = (Cookie*)c;
  simf[k->id].open_streams--;
  fdmap_init(); fdmap->erase(k->fd);
  int r = close(k->fd);
  __real_free(k);
  return r;
}
static int ck_seek(void* c, off64_t* off, int whence) {
  SimFile& f = simf[((Cookie*)c)->id];
  if (f.is_pipe) { errno = ESPIPE; return -1; }
  off64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (off64_t)f.rpos : (off64_t)f.data.size();
  base += *off;
  if (base < 0) { errno = EINVAL; return -1; }
  if ((size_t)base > f.data.size()) base = f.data.size();
  f.rpos = base; *off = base;
  return 0;
}

extern "C" int __real_dup(int);
extern "C" int __wrap_dup(int fd) {
  int r = __real_dup(fd);
  fdmap_init();
  if (r >= 0 && fdmap->count(fd)) { int v = (*fdmap)[fd]; (*fdmap)[r] = v; }
  return r;
}
extern "C" FILE* __real_fdopen(int, const char*);
extern "C" FILE* __wrap_fdopen(int fd, const char* mode) {
  fdmap_init();
  if (!fdmap->count(fd)) return __real_fdopen(fd, mode);
  Cookie* k = (Cookie*)__real_malloc(sizeof(Cookie));
  k->id = (*fdmap)[fd]; k->fd = fd;
  simf[k->id].open_streams++;
  cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
  return fopencookie(k, mode, io);
}
extern "C" int __real_close(int);
extern "C" int __wrap_close(int fd) {
  fdmap_init(); fdmap->erase(fd);
  return __real_close(fd);
}
extern "C" ssize_t __real_write(int, const void*, size_t);
extern "C" ssize_t __wrap_write(int fd, const void* p, size_t n) {
  fdmap_init();
  if (!fdmap->count(fd)) return __real_write(fd, p, n);
  return dev_write((*fdmap)[fd], (const char*)p, n);
}
extern "C" ssize_t __real_read(int, void*, size_t);
extern "C" ssize_t __wrap_read(int fd, void* p, size_t n) {
  fdmap_init();
  if (!fdmap->count(fd)) return __real_read(fd, p, n);
  return dev_read((*fdmap)[fd], (char*)p, n);
}
