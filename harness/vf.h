// Harness interface. Under the symbolic engine these are builtins; in the native replay they are
// implemented by native/vf_native.cpp from a counterexample.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint64_t vf_u64(const char *name, uint64_t lo, uint64_t hi);            // arbitrary integer in [lo,hi]
double vf_f64(const char *name, double maxabs, uint64_t scale);         // arbitrary multiple of 2^-scale, |x| <= maxabs
void vf_fill(double *p, uint64_t n, const char *name, double maxabs);   // n arbitrary multiples of 1/4
// n x n elements of the left (right = 0) or right factor of a product: those in even columns (in odd rows and columns)
// have magnitude <= wide, the others <= narrow, so that no product has two wide factors
void vf_fill_factor(double *p, uint64_t n, const char *name, uint64_t right, double wide, double narrow);
bool vf_all_equal(const double *p, uint64_t n, double x);               // all elements (fixed ones) equal x
void vf_assume(bool c);
void vf_assert(bool c, const char *msg);
void vf_eqf(double got, double want, const char *msg, uint64_t idx);    // exact equality, batched
void vf_eqdot(double got, const double *a, uint64_t sa, const double *b, uint64_t sb, uint64_t n, const char *msg, uint64_t idx);
uint64_t vf_concretize(uint64_t v);                                     // case split
void vf_reach(uint64_t id);                                             // vacuity witness
uint64_t vf_param(const char *name, uint64_t dflt);
uint64_t vf_task_fork(void);
uint64_t vf_task_switch(uint64_t t);
void vf_task_join(uint64_t t);
void vf_lock(void *);
void vf_unlock(void *);
uint64_t vf_race_set(uint64_t quiet);                                  // 1: accesses are not race-checked; returns the old value
void vf_malloc_skew(uint64_t s);
void vf_omp_threads(uint64_t n);
void vf_keep_i2f(uint64_t on);
uint64_t vf_nondet_order(const char *name, uint64_t n);
bool vf_readable(const void *p, uint64_t n);
uint64_t vf_native(void);
uint64_t vf_heap_live(void);                                           // number of live dynamic objects
void vf_log(const char *s, uint64_t v);
}
// run fn(arg) as task t
#ifdef VF_NATIVE
extern "C" void vf_task_run(uint64_t t, void (*fn)(void *), void *arg);
#else
inline void vf_task_run(uint64_t t, void (*fn)(void *), void *arg) { uint64_t me = vf_task_switch(t); fn(arg); vf_task_switch(me); }
#endif
// The body of a harness; parameter CALLS: it is run several times in a row (what one call leaves behind must not change the next).
#define VF_MAIN static void vf_once(); extern "C" void vf_main() { for (uint64_t c = vf_param("CALLS", 1); c > 0; c--) vf_once(); } static void vf_once()
// The stand-ins' own bookkeeping is not part of the program under analysis: inside a quiet section accesses are
// not race-checked and create no ordering; loud sections re-enable checking for the user's code they call.
struct vf_quiet { uint64_t o; vf_quiet() : o(vf_race_set(1)) {} ~vf_quiet() { vf_race_set(o); } vf_quiet(const vf_quiet &) = delete; };
struct vf_loud { uint64_t o; vf_loud() : o(vf_race_set(0)) {} ~vf_loud() { vf_race_set(o); } vf_loud(const vf_loud &) = delete; };
