// See schedrt.hpp. Compiled without instrumentation.
#include "schedrt.hpp"
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <errno.h>
#include <algorithm>
#include <malloc.h>
#include <stdarg.h>

using namespace rt;
namespace {
enum St { NONE, RUN, LOCK, BARRIER, WAITWS, DONE, JOIN };
struct Loop { bool init; long next, end, incr, chunk; bool up; bool is_static; int left; long ordered_next; };
const int NLOOP = 256;
struct Team;
struct Thread { int id; int st; void* lock; sem_t sem; pthread_t pt; void (*fn)(void*); void* data; uint64_t steps; int held; int wsn, singles; long barrier_gen; Loop* ws; long ws_trip; long single_n; void* arena; size_t used; int nest; Loop* nloops; };
struct Team { bool active; int n; long barrier_gen; int barrier_count; Loop loops[NLOOP]; long singles_done; } team;
Thread th[MAXT];
bool g_on = false;              // scheduled execution
__thread int t_id = 0;          // logical thread
__thread int t_busy = 0;        // inside the runtime
__thread bool t_known = false;
int g_cur = 0; bool g_region = false;
Config g_cfg; Shared* g_s = nullptr;
int g_max = 1;

// locks: address -> owner
struct L { void* key; int owner; int depth; };
L locks[256]; int nlocks = 0;
L* lock_of(void* k) { for (int i = 0; i < nlocks; i++) if (locks[i].key == k) return &locks[i]; if (nlocks == 256) abort(); locks[nlocks] = {k, -1, 0}; return &locks[nlocks++]; }

bool enabled(int i) {
  Thread& t = th[i];
  switch (t.st) {
  case RUN: return true;
  case LOCK: return lock_of(t.lock)->owner < 0;
  case BARRIER: return team.barrier_gen != t.barrier_gen;
  case JOIN: for (int j = 1; j < team.n; j++) if (th[j].st != DONE) return false; return true;
  }
  return false;
}

// choose the next thread; the current one may be unable to continue
int choose(bool free_switch) {
  int mask = 0, n = 0, only = -1;
  for (int i = 0; i < team.n; i++) if (enabled(i)) { mask |= 1 << i; n++; only = i; }
  if (!n) { g_s->deadlock = 1; _exit(0); }
  bool me = mask >> g_cur & 1;
  if (n == 1) return only;
  int k = g_s->npoints, c = me ? g_cur : only;
  if (!me) for (int i = 0; i < team.n; i++) if (mask >> i & 1) { c = i; break; }
  if (k < g_cfg.nprefix) { c = g_cfg.prefix[k]; if (!(mask >> c & 1)) { g_s->diverged = 1; _exit(0); } }
  if (k >= MAXP) { g_s->overflow = 1; return c; }
  uint64_t h = 1469598103934665603ULL; for (int i = 0; i < team.n; i++) { h ^= th[i].steps + 131 * th[i].st; h *= 1099511628211ULL; }
  g_s->p[k] = {(uint8_t)mask, (uint8_t)c, (uint8_t)g_cur, (uint8_t)(free_switch || !me)}; g_s->progress[k] = h; g_s->npoints = k + 1;
  return c;
}
void wait_turn(int id) { while (sem_wait(&th[id].sem)) {} }
void switch_to(int c) { if (c == t_id) { th[c].st = RUN; return; } g_cur = c; sem_post(&th[c].sem); wait_turn(t_id); g_cur = t_id; th[t_id].st = RUN; }
struct Busy { Busy() { t_busy++; } ~Busy() { t_busy--; } };
bool live() { return g_region && t_known && !t_busy; }
void point(bool free_switch = false) { if (!g_region || !t_known) return; th[t_id].steps++; switch_to(choose(free_switch)); }
void block(int st) { th[t_id].st = st; switch_to(choose(true)); }

void acquire(void* k) {
  point();
  L* l = lock_of(k);
  if (l->owner == t_id) { l->depth++; return; }
  while (l->owner >= 0) { th[t_id].lock = k; block(LOCK); }
  l->owner = t_id; l->depth = 1; th[t_id].held |= 1 << ((l - locks) % 31);
}
void release(void* k) { L* l = lock_of(k); if (--l->depth > 0) return; l->owner = -1; th[t_id].held &= ~(1 << ((l - locks) % 31)); th[t_id].steps++; }

// ---- memory accesses ----
struct G { uintptr_t a; uint8_t rd, wr; int locks; };
const size_t NG = 1 << 22; G* gran = nullptr;
struct Cf { uintptr_t v; }; uintptr_t* cset = nullptr; const size_t NCS = 1 << 14;
bool is_conf(uintptr_t g) { size_t h = (g * 0x9e3779b97f4a7c15ULL) >> 50; while (cset[h]) { if (cset[h] == g) return true; h = (h + 1) % NCS; } return false; }
void add_conf(uintptr_t g) { size_t h = (g * 0x9e3779b97f4a7c15ULL) >> 50; while (cset[h]) { if (cset[h] == g) return; h = (h + 1) % NCS; } cset[h] = g; }

inline void access1(uintptr_t g, bool w) {
  if (is_conf(g)) { Busy b; point(); }
  size_t h = g & (NG - 1); G* e = &gran[h]; int n = 0;
  while (e->a && e->a != g) { h = (h + 4099) & (NG - 1); e = &gran[h]; if (++n > 64) return; }
  Thread& t = th[t_id];
  if (!e->a) { e->a = g; e->locks = t.held; }
  uint8_t old = e->rd | e->wr, bit = 1 << t_id; int ol = e->locks;
  if (w) e->wr |= bit; else e->rd |= bit;
  e->locks &= t.held;
  uint8_t all = e->rd | e->wr;
  if (e->wr && (all & (all - 1)) && !e->locks) { (void)old; (void)ol; if (!is_conf(g)) { if (g_s->nconf < MAXC) g_s->conf[g_s->nconf++] = g; add_conf(g); } }
}
inline void access(const void* p, size_t n, bool w) {
  if (!g_region || !t_known || t_busy || !n) return;
  g_s->accesses++;
  uintptr_t a = (uintptr_t)p >> 3, b = ((uintptr_t)p + n - 1) >> 3;
  for (; a <= b; a++) access1(a, w);
}

// ---- teams ----
void* worker(void* v) {
  Thread* t = (Thread*)v; t_id = t->id; t_known = true; wait_turn(t->id); g_cur = t->id; t->st = RUN;
  t->fn(t->data);
  t_busy++; t->st = DONE; int c = choose(true); g_cur = c; sem_post(&th[c].sem);
  return nullptr;
}
void reset_thread(Thread& t, int id) { t.id = id; t.st = RUN; t.lock = nullptr; t.steps = 0; t.held = 0; t.wsn = t.singles = 0; t.ws = nullptr; t.single_n = 0; t.ws_trip = 0; t.nest = 0; sem_init(&t.sem, 0, 0); }

void parallel(void (*fn)(void*), void* data, unsigned want, void (*setup)(Loop&) = nullptr) {
  int n = want ? (int)want : g_cfg.team; if (n > MAXT) n = MAXT;
  if (!g_on || g_region || n <= 1) {        // serial, or nested
    if (!g_region) { team.n = 1; reset_thread(th[0], 0); memset(team.loops, 0, sizeof team.loops); team.singles_done = 0; if (setup) { setup(team.loops[0]); team.loops[0].init = true; th[0].ws = &team.loops[0]; th[0].wsn = 1; } fn(data); return; }
    // a team of one inside a scheduled thread
    Thread& t = th[t_id]; int wsn = t.wsn, trip = t.ws_trip; Loop *ws = t.ws, *nl = t.nloops, one[8]; memset(one, 0, sizeof one);
    t.nest++; t.nloops = one; t.wsn = 0; t.ws_trip = 0; if (setup) { setup(one[0]); one[0].init = true; t.ws = &one[0]; t.wsn = 1; }
    fn(data);
    t.nest--; t.nloops = nl; t.wsn = wsn; t.ws_trip = trip; t.ws = ws; return;
  }
  team.n = n; team.barrier_count = 0; memset(team.loops, 0, sizeof team.loops); team.singles_done = 0; g_s->max_team = std::max(g_s->max_team, n);
  for (int i = 0; i < n; i++) reset_thread(th[i], i);
  if (setup) { setup(team.loops[0]); team.loops[0].init = true; for (int i = 0; i < n; i++) { th[i].ws = &team.loops[0]; th[i].wsn = 1; } }
  t_id = 0; t_known = true; g_cur = 0;
  for (int i = 1; i < n; i++) {
    th[i].fn = fn; th[i].data = data; Busy b;
    static void* stacks[MAXT]; const size_t SS = 8u << 20;      // at fixed addresses
    if (!stacks[i]) { stacks[i] = mmap((char*)0x520000000000ULL + i * 2 * SS, SS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0); if (stacks[i] == MAP_FAILED) _exit(96); }
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, stacks[i], SS);
    if (pthread_create(&th[i].pt, &at, worker, &th[i])) _exit(95);
  }
  g_region = true;
  { Busy b; point(true); }
  fn(data);
  { Busy b; th[0].st = JOIN; bool all = true; for (int i = 1; i < n; i++) all = all && th[i].st == DONE; if (!all) { int c = choose(true); if (c != 0) { g_cur = c; sem_post(&th[c].sem); wait_turn(0); g_cur = 0; } } th[0].st = RUN; }
  g_region = false;
  { Busy b; for (int i = 1; i < n; i++) pthread_join(th[i].pt, nullptr); }
  team.n = 1;
  // the next region has happens-after: forget accesses
  madvise(gran, NG * sizeof(G), MADV_DONTNEED);
}

bool nested() { return g_region && th[t_id].nest; }
Loop* next_ws() { Thread& t = th[t_id]; int k = t.wsn++; if (nested()) { t.ws = &t.nloops[k % 8]; *t.ws = Loop(); t.ws_trip = 0; return t.ws; } if (k >= NLOOP) { k %= NLOOP; } t.ws = &team.loops[k]; t.ws_trip = 0; return t.ws; }
int nthreads() { return g_region && !nested() ? team.n : 1; }
int my_id() { return g_region && !nested() ? t_id : 0; }
bool grab(long* s, long* e) {
  if (g_region) { Busy b; point(); }
  Loop* l = th[t_id].ws; long n = l->incr > 0 ? (l->end - l->next + l->incr - 1) / l->incr : (l->next - l->end - l->incr - 1) / -l->incr;
  if (l->is_static) {
    // the k-th chunk of this thread
    long total = n, ch = l->chunk > 0 ? l->chunk : (total + nthreads() - 1) / nthreads(); if (ch < 1) ch = 1;
    long first = (th[t_id].ws_trip * nthreads() + my_id()) * ch; if (l->chunk <= 0 && th[t_id].ws_trip) return false; th[t_id].ws_trip++;
    if (first >= total) return false; long last = std::min(total, first + ch); *s = l->next + first * l->incr; *e = l->next + last * l->incr; return true;
  }
  if (n <= 0) return false;
  long ch = l->chunk > 0 ? l->chunk : 1; if (ch > n) ch = n;
  *s = l->next; *e = l->next + ch * l->incr; l->next = *e; return true;
}
bool loop_start(long start, long end, long incr, long chunk, bool st, long* s, long* e) { Loop* l = next_ws(); if (!l->init) { *l = Loop(); l->init = true; l->next = start; l->end = end; l->incr = incr; l->chunk = chunk; l->is_static = st; } return grab(s, e); }
} // namespace

extern "C" {
void rt_begin(const Config* c, Shared* s) {
  g_cfg = *c; g_s = s; g_max = c->max_threads; g_on = true; nlocks = 0;
  if (!gran) gran = (G*)mmap(nullptr, NG * sizeof(G), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (!cset) cset = (uintptr_t*)mmap(nullptr, NCS * sizeof(uintptr_t), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  for (int i = 0; i < c->nconf; i++) add_conf(c->conf[i]);
}
void rt_end() { g_on = false; }
void rt_team(void (*fn)(void*), void* data, int n) { parallel(fn, data, n); }
int rt_thread() { return g_region ? t_id : 0; }
// the console is one object: a scheduling point if threads use it without a common lock
void rt_point_output() { if (g_region && t_known && !t_busy) access1(0x7f0000000001ULL, true); }
static void sync_point() { if (g_region && t_known && !t_busy) { Busy b; point(); } }
bool rt_in_region() { return g_region; }

// ---- OpenMP ----
int omp_get_thread_num() { return my_id(); }
int omp_get_num_threads() { return nthreads(); }
int omp_get_max_threads() { return g_max; }
void omp_set_num_threads(int n) { g_max = n; if (g_cfg.team > n) g_cfg.team = n; }
int omp_get_num_procs() { return 8; }
int omp_in_parallel() { return g_region && team.n > 1; }
int omp_get_thread_limit() { return 1 << 30; }
int omp_get_level() { return g_region + nested(); }
int omp_get_active_level() { return g_region; }
int omp_get_team_size(int) { return nthreads(); }
int omp_get_ancestor_thread_num(int) { return 0; }
int omp_get_dynamic() { return 0; } void omp_set_dynamic(int) {} void omp_set_nested(int) {} int omp_get_nested() { return 0; }
int omp_get_max_active_levels() { return 1; } void omp_set_max_active_levels(int) {}
void omp_set_schedule(int, int) {} void omp_get_schedule(int* a, int* b) { *a = 1; *b = 0; }
double omp_get_wtime() { return 0; } double omp_get_wtick() { return 1e-9; }
struct ol { void* x; };
void omp_init_lock(void*) {} void omp_destroy_lock(void*) {} void omp_init_nest_lock(void*) {} void omp_destroy_nest_lock(void*) {}
void omp_set_lock(void* k) { if (live()) { Busy b; acquire(k); } } void omp_unset_lock(void* k) { if (live()) { Busy b; release(k); } }
int omp_test_lock(void* k) { if (!live()) return 1; Busy b; point(); L* l = lock_of(k); if (l->owner >= 0) return 0; l->owner = t_id; l->depth = 1; th[t_id].held |= 1 << ((l - locks) % 31); return 1; }
void omp_set_nest_lock(void* k) { omp_set_lock(k); } void omp_unset_nest_lock(void* k) { omp_unset_lock(k); } int omp_test_nest_lock(void* k) { return omp_test_lock(k); }

static char crit_default, atomic_lock;
void GOMP_critical_start() { if (live()) { Busy b; acquire(&crit_default); } }
void GOMP_critical_end() { if (live()) { Busy b; release(&crit_default); } }
void GOMP_critical_name_start(void** p) { if (live()) { Busy b; acquire(p); } }
void GOMP_critical_name_end(void** p) { if (live()) { Busy b; release(p); } }
void GOMP_atomic_start() { if (live()) { Busy b; acquire(&atomic_lock); } }
void GOMP_atomic_end() { if (live()) { Busy b; release(&atomic_lock); } }
void GOMP_barrier() {
  if (!live() || nested()) return;
  Busy b; point();
  Thread& t = th[t_id]; t.barrier_gen = team.barrier_gen;
  if (++team.barrier_count == team.n) { team.barrier_count = 0; team.barrier_gen++; point(true); }
  else { block(BARRIER); }
}
bool GOMP_barrier_cancel() { GOMP_barrier(); return false; }
bool GOMP_cancellation_point(int) { return false; }
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_single_start() { if (!g_region || nested()) return true; Busy b; point(); Thread& t = th[t_id]; long k = t.single_n++; if (k >= team.singles_done) { team.singles_done = k + 1; return true; } return false; }
void* GOMP_single_copy_start() { abort(); } void GOMP_single_copy_end(void*) { abort(); }
void GOMP_parallel(void (*fn)(void*), void* d, unsigned n, unsigned) { parallel(fn, d, n); }
unsigned GOMP_parallel_reductions(void (*fn)(void*), void* d, unsigned n, unsigned) { parallel(fn, d, n); return n; }
static long s_start, s_end, s_incr, s_chunk; static bool s_static;
static void s_setup(Loop& l) { l = Loop(); l.next = s_start; l.end = s_end; l.incr = s_incr; l.chunk = s_chunk; l.is_static = s_static; }
#define PL(name, stat) void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned n, long a, long e, long i, long c, unsigned) { s_start = a; s_end = e; s_incr = i; s_chunk = c; s_static = stat; parallel(fn, d, n, s_setup); }
PL(static, true) PL(dynamic, false) PL(guided, false) PL(nonmonotonic_dynamic, false) PL(nonmonotonic_guided, false)
#define PLR(name) void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned n, long a, long e, long i, unsigned) { s_start = a; s_end = e; s_incr = i; s_chunk = 1; s_static = false; parallel(fn, d, n, s_setup); }
PLR(runtime) PLR(nonmonotonic_runtime) PLR(maybe_nonmonotonic_runtime)
#define LS(name, stat) bool GOMP_loop_##name##_start(long a, long e, long i, long c, long* s, long* f) { return loop_start(a, e, i, c, stat, s, f); } bool GOMP_loop_##name##_next(long* s, long* f) { return grab(s, f); }
LS(static, true) LS(dynamic, false) LS(guided, false) LS(nonmonotonic_dynamic, false) LS(nonmonotonic_guided, false) LS(ordered_static, true) LS(ordered_dynamic, false) LS(ordered_guided, false)
#define LSR(name) bool GOMP_loop_##name##_start(long a, long e, long i, long* s, long* f) { return loop_start(a, e, i, 1, false, s, f); } bool GOMP_loop_##name##_next(long* s, long* f) { return grab(s, f); }
LSR(runtime) LSR(nonmonotonic_runtime) LSR(maybe_nonmonotonic_runtime) LSR(ordered_runtime)
#define LU(name, stat) bool GOMP_loop_ull_##name##_start(bool, unsigned long long a, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long* s, unsigned long long* f) { return loop_start(a, e, i, c, stat, (long*)s, (long*)f); } bool GOMP_loop_ull_##name##_next(unsigned long long* s, unsigned long long* f) { return grab((long*)s, (long*)f); }
LU(static, true) LU(dynamic, false) LU(guided, false) LU(nonmonotonic_dynamic, false) LU(nonmonotonic_guided, false)
#define LUR(name) bool GOMP_loop_ull_##name##_start(bool, unsigned long long a, unsigned long long e, unsigned long long i, unsigned long long* s, unsigned long long* f) { return loop_start(a, e, i, 1, false, (long*)s, (long*)f); } bool GOMP_loop_ull_##name##_next(unsigned long long* s, unsigned long long* f) { return grab((long*)s, (long*)f); }
LUR(runtime) LUR(nonmonotonic_runtime) LUR(maybe_nonmonotonic_runtime)
void GOMP_loop_end() { GOMP_barrier(); }
void GOMP_loop_end_nowait() {}
bool GOMP_loop_end_cancel() { GOMP_barrier(); return false; }
unsigned GOMP_sections_start(unsigned n) { long s, e; Loop* l; return loop_start(1, (long)n + 1, 1, 1, false, &s, &e) ? s : 0; (void)l; }
unsigned GOMP_sections_next() { long s, e; return grab(&s, &e) ? s : 0; }
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned c, unsigned) { s_start = 1; s_end = (long)c + 1; s_incr = 1; s_chunk = 1; s_static = false; parallel(fn, d, n, s_setup); }
void GOMP_sections_end() { GOMP_barrier(); } void GOMP_sections_end_nowait() {}
static char ordered_lock; void GOMP_ordered_start() { if (live()) { Busy b; acquire(&ordered_lock); } } void GOMP_ordered_end() { if (live()) { Busy b; release(&ordered_lock); } }
// tasks are executed at once
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, bool, unsigned, void**, int) {
  if (cpy) { char* b = (char*)malloc(size + align); char* a = (char*)(((uintptr_t)b + align - 1) & ~(uintptr_t)(align - 1)); cpy(a, data); fn(a); free(b); } else fn(data);
}
void GOMP_taskwait() {} void GOMP_taskyield() { if (live()) { Busy b; point(); } } void GOMP_taskgroup_start() {} void GOMP_taskgroup_end() {}

// ---- synchronisation used by the C++ runtime ----
int __cxa_guard_acquire(uint64_t* g) { if (__atomic_load_n((char*)g, __ATOMIC_ACQUIRE)) return 0; if (live()) { Busy b; acquire(g); if (*(char*)g) { release(g); return 0; } } return 1; }
void __cxa_guard_release(uint64_t* g) { __atomic_store_n((char*)g, 1, __ATOMIC_RELEASE); if (live()) { Busy b; release(g); } }
void __cxa_guard_abort(uint64_t* g) { if (live()) { Busy b; release(g); } }
int pthread_mutex_lock(pthread_mutex_t* m) { static int (*f)(pthread_mutex_t*) = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock"); if (live()) { Busy b; acquire(m); return 0; } return f ? f(m) : 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) { static int (*f)(pthread_mutex_t*) = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_unlock"); if (live()) { Busy b; release(m); return 0; } return f ? f(m) : 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) { static int (*f)(pthread_mutex_t*) = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_trylock"); if (live()) return omp_test_lock(m) ? 0 : EBUSY; return f ? f(m) : 0; }

// ---- instrumentation ----
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* p) { access(p, n, false); } void __tsan_write##n(void* p) { access(p, n, true); } \
  void __tsan_unaligned_read##n(void* p) { access(p, n, false); } void __tsan_unaligned_write##n(void* p) { access(p, n, true); } \
  void __tsan_volatile_read##n(void* p) { access(p, n, false); } void __tsan_volatile_write##n(void* p) { access(p, n, true); } \
  void __tsan_unaligned_volatile_read##n(void* p) { access(p, n, false); } void __tsan_unaligned_volatile_write##n(void* p) { access(p, n, true); } \
  void __tsan_read_write##n(void* p) { access(p, n, false); access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { access(p, n, false); } void __tsan_write_range(void* p, unsigned long n) { access(p, n, true); }
void __tsan_vptr_update(void** p, void*) { access(p, 8, true); } void __tsan_vptr_read(void** p) { access(p, 8, false); }
#define AT(B, T) \
  T __tsan_atomic##B##_load(const volatile T* a, int) { sync_point(); return __atomic_load_n(a, 5); } \
  void __tsan_atomic##B##_store(volatile T* a, T v, int) { sync_point(); __atomic_store_n(a, v, 5); } \
  T __tsan_atomic##B##_exchange(volatile T* a, T v, int) { sync_point(); return __atomic_exchange_n(a, v, 5); } \
  T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int) { sync_point(); return __atomic_fetch_add(a, v, 5); } \
  T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int) { sync_point(); return __atomic_fetch_sub(a, v, 5); } \
  T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int) { sync_point(); return __atomic_fetch_and(a, v, 5); } \
  T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int) { sync_point(); return __atomic_fetch_or(a, v, 5); } \
  T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int) { sync_point(); return __atomic_fetch_xor(a, v, 5); } \
  T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int) { sync_point(); return __atomic_fetch_nand(a, v, 5); } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { sync_point(); return __atomic_compare_exchange_n(a, c, v, false, 5, 5); } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { sync_point(); return __atomic_compare_exchange_n(a, c, v, false, 5, 5); } \
  T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int, int) { sync_point(); __atomic_compare_exchange_n(a, &c, v, false, 5, 5); return c; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}

// block operations of the instrumented objects (linked with --wrap)
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { access(s, n, false); access(d, n, true); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { access(s, n, false); access(d, n, true); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { access(d, n, true); return __real_memset(d, c, n); }

// C output of the instrumented objects
int __real_puts(const char*); int __real_putchar(int); size_t __real_fwrite(const void*, size_t, size_t, FILE*);
int __wrap_printf(const char* f, ...) { rt_point_output(); va_list a; va_start(a, f); int r = vprintf(f, a); va_end(a); return r; }
int __wrap_fprintf(FILE* o, const char* f, ...) { rt_point_output(); va_list a; va_start(a, f); int r = vfprintf(o, f, a); va_end(a); return r; }
int __wrap_puts(const char* s) { rt_point_output(); return __real_puts(s); }
int __wrap_putchar(int c) { rt_point_output(); return __real_putchar(c); }
size_t __wrap_fwrite(const void* p, size_t s, size_t n, FILE* f) { rt_point_output(); return __real_fwrite(p, s, n, f); }

// ---- memory: each thread has its own, so that addresses do not depend on the schedule, and nothing is used twice ----
void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_realloc(void*, size_t); void* __libc_calloc(size_t, size_t); void* __libc_memalign(size_t, size_t);
static char* const ARENA = (char*)0x510000000000ULL; static const size_t ASIZE = 256u << 20;
static bool in_arena(void* p) { return (char*)p >= ARENA && (char*)p < ARENA + MAXT * ASIZE; }
static void* arena_alloc(size_t n, size_t al = 16) {
  Thread& t = th[t_id];
  if (!t.arena) { t.arena = mmap(ARENA + t_id * ASIZE, ASIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0); t.used = 64; if (t.arena == MAP_FAILED) _exit(97); }
  size_t at = (t.used + 16 + al - 1) / al * al; if (at + n > ASIZE) return nullptr; *(size_t*)((char*)t.arena + at - 16) = n; t.used = at + n; return (char*)t.arena + at;
}
static inline bool own() { return g_on && (!g_region || t_known); }
void* malloc(size_t n) { if (own()) return arena_alloc(n); return __libc_malloc(n); }
void free(void* p) { if (!in_arena(p)) { if (g_on) return; __libc_free(p); } }
void* calloc(size_t a, size_t b) { if (own()) { void* p = arena_alloc(a * b); if (p) __real_memset(p, 0, a * b); return p; } return __libc_calloc(a, b); }
void* realloc(void* p, size_t n) { if (in_arena(p) || own()) { void* q = own() ? arena_alloc(n) : __libc_malloc(n); if (p && q) { size_t o = in_arena(p) ? *(size_t*)((char*)p - 16) : malloc_usable_size(p); __real_memcpy(q, p, std::min(o, n)); } return q; } return __libc_realloc(p, n); }
void* memalign(size_t al, size_t n) { if (own()) return arena_alloc(n, al < 16 ? 16 : al); return __libc_memalign(al, n); }
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void** p, size_t al, size_t n) { *p = memalign(al, n); return *p ? 0 : ENOMEM; }
}
