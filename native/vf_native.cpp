// Native replay of a counterexample against the real code: the harness interface is answered from the file named
// by VF_CEX. This translation unit is compiled without sanitizer instrumentation.
// Tasks and OpenMP threads run one at a time in the order of the symbolic execution; in the TSan build every task
// is an operating-system thread of its own and only spawning, joining, barriers and locks are visible to TSan.
#include <pthread.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <string>
#include <vector>
#include <malloc.h>
#include <new>
extern "C" void vf_main();
typedef uint64_t u64; typedef int64_t i64;
#ifdef VF_TSAN
extern "C" { void __tsan_acquire(void *); void __tsan_release(void *); void AnnotateIgnoreReadsBegin(const char *, int); void AnnotateIgnoreReadsEnd(const char *, int); void AnnotateIgnoreWritesBegin(const char *, int); void AnnotateIgnoreWritesEnd(const char *, int); void AnnotateIgnoreSyncBegin(const char *, int); void AnnotateIgnoreSyncEnd(const char *, int); }
#endif
#ifdef VF_ASAN
extern "C" { void __asan_poison_memory_region(void const volatile *, size_t); void __asan_unpoison_memory_region(void const volatile *, size_t); int __asan_address_is_poisoned(void const volatile *); }
#endif
static std::map<std::string, std::deque<u64>> *U; static std::map<std::string, std::deque<double>> *F; static std::map<std::string, u64> *P;
static bool verbose = false;
static void fail(const std::string &m) { fprintf(stdout, "VF-FAIL %s\n", m.c_str()); fflush(stdout); _exit(42); }
static bool nextU(const std::string &n, u64 &v) { auto it = U->find(n); if (it == U->end() || it->second.empty()) return false; v = it->second.front(); it->second.pop_front(); return true; }
static bool nextF(const std::string &n, double &v) { auto it = F->find(n); if (it == F->end() || it->second.empty()) return false; v = it->second.front(); it->second.pop_front(); return true; }
static void load() {
  U = new std::map<std::string, std::deque<u64>>; F = new std::map<std::string, std::deque<double>>; P = new std::map<std::string, u64>;
  verbose = getenv("VF_VERBOSE") != nullptr; const char *p = getenv("VF_CEX"); if (!p) return; FILE *f = fopen(p, "r"); if (!f) { perror(p); _exit(90); }
  char k; char nm[512], val[512]; while (fscanf(f, " %c %511s %511s", &k, nm, val) == 3) { if (k == 'P') (*P)[nm] = strtoull(val, 0, 0); else if (k == 'U') (*U)[nm].push_back(strtoull(val, 0, 0)); else if (k == 'F') (*F)[nm].push_back(strtod(val, 0)); }
  fclose(f);
}
// ---- quiet sections
static thread_local int lvl = 0;
static void setLvl(int n) {
#ifdef VF_TSAN
  if (!lvl && n) { AnnotateIgnoreReadsBegin("", 0); AnnotateIgnoreWritesBegin("", 0); AnnotateIgnoreSyncBegin("", 0); }
  if (lvl && !n) { AnnotateIgnoreSyncEnd("", 0); AnnotateIgnoreWritesEnd("", 0); AnnotateIgnoreReadsEnd("", 0); }
#endif
  lvl = n;
}
static void acq(void *p) {
#ifdef VF_TSAN
  int o = lvl; setLvl(0); __tsan_acquire(p); setLvl(o);
#endif
}
static void rel(void *p) {
#ifdef VF_TSAN
  int o = lvl; setLvl(0); __tsan_release(p); setLvl(o);
#endif
}
// ---- coroutines: one operating-system thread each, control handed over explicitly (invisible to TSan)
struct Co { pthread_t th; volatile int go = 0, back = 0; void (*fn)(void *) = nullptr; void *arg = nullptr; int startLvl = 0; volatile bool fin = false; char tag[8], bar[8]; int tid = 0, team = 1; };
static void fwait(volatile int *w) { while (!__atomic_load_n(w, __ATOMIC_SEQ_CST)) syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); __atomic_store_n(w, 0, __ATOMIC_SEQ_CST); }
static void fwake(volatile int *w) { __atomic_store_n(w, 1, __ATOMIC_SEQ_CST); syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }
static thread_local Co *cur = nullptr;
static void *coMain(void *p) { Co *c = (Co *)p; fwait(&c->go); cur = c; setLvl(c->startLvl); c->fn(c->arg); setLvl(0); rel(c->tag); c->fin = true; fwake(&c->back); return nullptr; }
static Co *coNew() { Co *c = new Co; int o = lvl; setLvl(0); pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 4 << 20); pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED); if (pthread_create(&c->th, &a, coMain, c)) { fprintf(stderr, "pthread_create failed\n"); _exit(91); } setLvl(o); return c; }
static void coResume(Co *c) { fwake(&c->go); fwait(&c->back); }
static void coYield() { Co *c = cur; fwake(&c->back); fwait(&c->go); }
static std::vector<Co *> tasks;
extern "C" {
u64 vf_u64(const char *n, u64 lo, u64 hi) { if (lo == hi) return lo; u64 v; if (!nextU(n, v)) v = lo; if (verbose) printf("  %s = %llu\n", n, (unsigned long long)v); if (v < lo || v > hi) { printf("VF-INCONSISTENT %s\n", n); _exit(77); } return v; }
double vf_f64(const char *n, double, u64) { double v; if (!nextF(n, v)) v = 0; if (verbose) printf("  %s = %g\n", n, v); return v; }
bool vf_all_equal(const double *p, u64 n, double x) { for (u64 i = 0; i < n; i++) if (p[i] != x) return false; return true; }
void vf_fill(double *p, u64 n, const char *nm, double) { for (u64 i = 0; i < n; i++) { double v; if (!nextF(std::string(nm) + "." + std::to_string(i), v)) v = 0; p[i] = v; } }
void vf_fill_factor(double *p, u64 n, const char *nm, u64, double, double) { vf_fill(p, n * n, nm, 0); }
void vf_assume(bool c) { if (!c) { printf("VF-INCONSISTENT assumption\n"); _exit(77); } }
void vf_assert(bool c, const char *m) { if (!c) fail(m); }
void vf_eqf(double a, double b, const char *m, u64 i) { if (!(a == b)) { char t[256]; snprintf(t, sizeof t, " (element %llu: got %.17g, expected %.17g)", (unsigned long long)i, a, b); fail(std::string(m) + t); } }
void vf_eqdot(double g, const double *a, u64 sa, const double *b, u64 sb, u64 n, const char *m, u64 i) { double r = 0; for (u64 k = 0; k < n; k++) r += a[k * sa] * b[k * sb]; vf_eqf(g, r, m, i); }
u64 vf_concretize(u64 v) { return v; }
void vf_reach(u64) {}
u64 vf_param(const char *n, u64 d) { auto it = P->find(n); return it == P->end() ? d : it->second; }
u64 vf_race_set(u64 n) { int o = lvl; setLvl((int)n); return o; }
void vf_lock(void *p) { acq(p); }
void vf_unlock(void *p) { rel(p); }
static u64 skew = 0; static bool skewSet = false;
void vf_malloc_skew(u64 s) { skew = s; skewSet = true; }
static int ompThreads = 3, ompSet = 0, ompPush = 0;
void vf_omp_threads(u64 n) { ompThreads = (int)n; ompSet = 0; }
void vf_keep_i2f(u64) {}
u64 vf_nondet_order(const char *n, u64 k) { if (k <= 1) return 0; u64 v; if (!nextU(n, v)) v = 0; return v % k; }
bool vf_readable(const void *p, u64 n) {
#ifdef VF_ASAN
  for (u64 i = 0; i < n; i++) if (__asan_address_is_poisoned((const char *)p + i)) return false;
#endif
  return p != nullptr; }
u64 vf_native(void) { return 1; }
static i64 live = 0; u64 vf_heap_live(void) { return (u64)live; }
void vf_log(const char *s, u64 v) { printf("%s %llu\n", s, (unsigned long long)v); }
#ifdef VF_TSAN
u64 vf_task_fork(void) { tasks.push_back(coNew()); return tasks.size(); }
void vf_task_run(u64 t, void (*fn)(void *), void *a) { Co *c = tasks[t - 1]; c->fn = fn; c->arg = a; c->startLvl = lvl; coResume(c); }
void vf_task_join(u64 t) { if (t) acq(tasks[t - 1]->tag); }
#else
u64 vf_task_fork(void) { return 1; }
void vf_task_run(u64, void (*fn)(void *), void *a) { fn(a); }
void vf_task_join(u64) {}
#endif
u64 vf_task_switch(u64) { return 0; }
// ---- OpenMP runtime entry points used by clang
static int team_(void) { return cur && cur->team > 1 ? cur->team : 1; }
static int tid_(void) { return cur ? cur->tid : 0; }
typedef void (*micro)(int *, int *, ...);
struct MT { micro f; int g, b; int n; void *a[24]; };
static void callMicro(void *p) { MT *m = (MT *)p; void **a = m->a; m->f(&m->g, &m->b, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15], a[16], a[17], a[18], a[19], a[20], a[21], a[22], a[23]); }
struct Disp { i64 lo, up, st; u64 chunk, next; }; static std::map<u64, Disp> dsh; static std::map<int, u64> dpos; static std::map<std::pair<u64, int>, u64> dgiven; static int parDepth = 0;
void __kmpc_fork_call(void *, int argc, micro f, ...) {
  int T = parDepth ? 1 : ompPush ? ompPush : ompSet ? ompSet : ompThreads; ompPush = 0; va_list ap; va_start(ap, f); void *av[24] = {}; for (int i = 0; i < argc && i < 24; i++) av[i] = va_arg(ap, void *); va_end(ap);
  parDepth++; dsh.clear(); dpos.clear(); dgiven.clear();
  if (T <= 1) { MT m{f, 0, 0, argc, {}}; memcpy(m.a, av, sizeof av); Co *o = cur; Co z; z.team = 1; z.tid = 0; if (parDepth > 1 || !o) { callMicro(&m); } else callMicro(&m); parDepth--; return; }
  std::vector<Co *> c(T); std::vector<MT> m(T); for (int i = 0; i < T; i++) { c[i] = coNew(); c[i]->tid = i; c[i]->team = T; m[i] = MT{f, i, i, argc, {}}; memcpy(m[i].a, av, sizeof av); c[i]->fn = callMicro; c[i]->arg = &m[i]; c[i]->startLvl = lvl; }
  bool more = true; while (more) { more = false; for (int i = 0; i < T; i++) if (!c[i]->fin) { coResume(c[i]); if (!c[i]->fin) more = true; } }
  for (int i = 0; i < T; i++) acq(c[i]->tag); parDepth--;
}
static char barTag[8];
void __kmpc_barrier(void *, int) { if (team_() > 1) { rel(barTag); coYield(); acq(barTag); } }
int __kmpc_global_thread_num(void *) { return tid_(); }
int omp_get_thread_num(void) { return tid_(); } int omp_get_num_threads(void) { return team_(); } int omp_get_max_threads(void) { return ompSet ? ompSet : ompThreads; } int omp_get_num_procs(void) { return ompThreads; } int omp_in_parallel(void) { return parDepth > 0; } void omp_set_num_threads(int n) { ompSet = n; } void __kmpc_push_num_threads(void *, int, int n) { ompPush = n; } double omp_get_wtime(void) { static double t = 0; return t += 1e-3; }
}
template <class T, class ST> static void sinit(int sched, int *pl, T *plo, T *pup, ST *pst, ST incr_, ST chunk_) {
  i64 lo = (i64)*plo, up = (i64)*pup, incr = (i64)incr_, chunk = (i64)chunk_; int n = team_(), id = tid_(); u64 trip = incr > 0 ? (up < lo ? 0 : (u64)(up - lo) / incr + 1) : (lo < up ? 0 : (u64)(lo - up) / (u64)(-incr) + 1);
  if ((sched & 0xFF) == 33) { if (chunk < 1) chunk = 1; i64 span = chunk * incr; *pst = (ST)(span * n); i64 l = lo + span * id; *plo = (T)l; *pup = (T)(l + span - incr); *pl = trip && (u64)id == ((trip - 1) / chunk) % n; return; }
  *pst = (ST)trip; if (!trip) { *pl = 0; return; } u64 ch = trip / n, ex = trip % n, b = id * ch + ((u64)id < ex ? id : ex), k = ch + ((u64)id < ex);
  if (!k) { *plo = (T)(up + incr); *pup = (T)up; *pl = 0; return; } *plo = (T)(lo + (i64)b * incr); *pup = (T)(lo + (i64)(b + k - 1) * incr); *pl = b + k == trip;
}
static void dinit(i64 lo, i64 up, i64 st, i64 ch) { u64 g = dpos[tid_()]++; if (!dsh.count(g)) dsh[g] = Disp{lo, up, st, (u64)(ch < 1 ? 1 : ch), 0}; }
template <class T, class ST> static int dnext(int *pl, T *plo, T *pup, ST *pst) { u64 g = dpos[tid_()] - 1; Disp &d = dsh[g]; u64 trip = d.st > 0 ? (d.up < d.lo ? 0 : (u64)(d.up - d.lo) / d.st + 1) : (d.lo < d.up ? 0 : (u64)(d.lo - d.up) / (u64)(-d.st) + 1); u64 share = (trip + team_() - 1) / team_(); u64 &gv = dgiven[{g, tid_()}]; if (d.next >= trip || gv >= share) return 0; u64 n = d.chunk < trip - d.next ? d.chunk : trip - d.next; *pl = d.next + n == trip; *plo = (T)(d.lo + (i64)d.next * d.st); *pup = (T)(d.lo + (i64)(d.next + n - 1) * d.st); *pst = (ST)d.st; d.next += n; gv += n; return 1; }
extern "C" {
void __kmpc_for_static_init_4(void *, int, int s, int *l, int32_t *lo, int32_t *up, int32_t *st, int32_t i, int32_t c) { sinit(s, l, lo, up, st, i, c); }
void __kmpc_for_static_init_4u(void *, int, int s, int *l, uint32_t *lo, uint32_t *up, int32_t *st, int32_t i, int32_t c) { sinit(s, l, lo, up, st, i, c); }
void __kmpc_for_static_init_8(void *, int, int s, int *l, i64 *lo, i64 *up, i64 *st, i64 i, i64 c) { sinit(s, l, lo, up, st, i, c); }
void __kmpc_for_static_init_8u(void *, int, int s, int *l, u64 *lo, u64 *up, i64 *st, i64 i, i64 c) { sinit(s, l, lo, up, st, i, c); }
void __kmpc_for_static_fini(void *, int) {}
void __kmpc_dispatch_init_4(void *, int, int, int32_t a, int32_t b, int32_t s, int32_t c) { dinit(a, b, s, c); } void __kmpc_dispatch_init_4u(void *, int, int, uint32_t a, uint32_t b, int32_t s, int32_t c) { dinit(a, b, s, c); } void __kmpc_dispatch_init_8(void *, int, int, i64 a, i64 b, i64 s, i64 c) { dinit(a, b, s, c); } void __kmpc_dispatch_init_8u(void *, int, int, u64 a, u64 b, i64 s, i64 c) { dinit(a, b, s, c); }
int __kmpc_dispatch_next_4(void *, int, int *l, int32_t *a, int32_t *b, int32_t *s) { return dnext(l, a, b, s); } int __kmpc_dispatch_next_4u(void *, int, int *l, uint32_t *a, uint32_t *b, int32_t *s) { return dnext(l, a, b, s); } int __kmpc_dispatch_next_8(void *, int, int *l, i64 *a, i64 *b, i64 *s) { return dnext(l, a, b, s); } int __kmpc_dispatch_next_8u(void *, int, int *l, u64 *a, u64 *b, i64 *s) { return dnext(l, a, b, s); }
void __kmpc_dispatch_fini_4(void *, int) {} void __kmpc_dispatch_fini_4u(void *, int) {} void __kmpc_dispatch_fini_8(void *, int) {} void __kmpc_dispatch_fini_8u(void *, int) {}
void __kmpc_critical(void *, int, void *p) { acq(p); } void __kmpc_end_critical(void *, int, void *p) { rel(p); }
int __kmpc_reduce_nowait(void *, int, int, size_t, void *, void *, void *p) { acq(p); return 1; } int __kmpc_reduce(void *, int, int, size_t, void *, void *, void *p) { acq(p); return 1; } void __kmpc_end_reduce_nowait(void *, int, void *p) { rel(p); } void __kmpc_end_reduce(void *l, int g, void *p) { rel(p); __kmpc_barrier(l, g); }
int __kmpc_single(void *, int) { return tid_() == 0; } void __kmpc_end_single(void *, int) {} int __kmpc_master(void *, int) { return tid_() == 0; } void __kmpc_end_master(void *, int) {} int __kmpc_masked(void *, int, int) { return tid_() == 0; } void __kmpc_end_masked(void *, int) {}
void __kmpc_flush(void *) {} void __kmpc_serialized_parallel(void *, int) {} void __kmpc_end_serialized_parallel(void *, int) {}
}
#ifdef VF_ASAN
// memory from new is only 16-byte aligned and starts out as NaNs; the bytes around it are poisoned
static void *get(size_t n, u64 k) { char *p = nullptr, *q; size_t off = skewSet ? 4096 + skew : 16; if (posix_memalign((void **)&p, skewSet ? 4096 : 64, n + off)) throw std::bad_alloc(); q = p + off; ((u64 *)q)[-2] = 0x5eed0000 + k; ((char **)q)[-1] = p; memset(q, 0xFF, n); __asan_poison_memory_region(p, off); live++; return q; }
static void put(void *q, u64 k) { if (!q) return; u64 t = (u64)q % 16 ? 0 : ((u64 *)q)[-2]; if (t < 0x5eed0000 || t > 0x5eed0007) fail("delete of a pointer that new did not return"); if (t == 0x5eed0000 + 7) fail("double delete"); if (t != 0x5eed0000 + k) fail("deallocation with a function that does not match the allocation"); char *p = ((char **)q)[-1]; ((u64 *)q)[-2] = 0x5eed0000 + 7; live--; __asan_unpoison_memory_region(p, (char *)q - p); free(p); }
void *operator new(size_t n) { if (n > (1ull << 33)) throw std::bad_alloc(); return get(n, 1); } void *operator new[](size_t n) { if (n > (1ull << 33)) throw std::bad_alloc(); return get(n, 2); }
void operator delete(void *p) noexcept { put(p, 1); } void operator delete[](void *p) noexcept { put(p, 2); } void operator delete(void *p, size_t) noexcept { put(p, 1); } void operator delete[](void *p, size_t) noexcept { put(p, 2); }
#endif
int main() { load(); vf_main(); fflush(stdout); printf("VF-OK\n"); fflush(stdout); _exit(0); }
