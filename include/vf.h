/* Shared verification support.  Three build modes:
 *   VF_PROOF   goto-cc + goto-instrument --dfcc (contracts, unbounded)
 *   VF_BOUNDED plain cbmc on the same real sources (bounded stand-in / counterexample search)
 *   VF_NATIVE  gcc + ASan/UBSan (replay of a counterexample, random search for one)
 */
#ifndef VF_H
#define VF_H
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdio.h>
#include <stdarg.h>
#include <math.h>
#include <limits.h>
#include <float.h>

/* exact floating-point classification used in specifications (independent of the code's own helpers) */
#define VF_PINF(v) ((v) > DBL_MAX)
#define VF_NINF(v) ((v) < -DBL_MAX)
#define VF_INF(v) (VF_PINF(v) || VF_NINF(v))
#define VF_NAN(v) ((v) != (v))
#define VF_FIN(v) ((v) >= -DBL_MAX && (v) <= DBL_MAX)
/* bit-for-bit "same value": equal, or both NaN */
#define VF_SAME(a, b) ((a) == (b) || ((a) != (a) && (b) != (b)))
#define VF_IMP(a, b) (!(a) || (b))

/* ghost state: may coco_error() be reached?  0: reaching it is a failed obligation. */
static int vfg_error_allowed;

#if defined(VF_PROOF) || defined(VF_BOUNDED)

#define VF_ASSUME(c) __CPROVER_assume(c)
#define VF_ASSERT(c, m) __CPROVER_assert((c), "VF:" m)
#define VF_REACH(m) __CPROVER_assert(0, "VF_REACH:" m)
#define VF_OLD(e) __CPROVER_old(e)
#define VF_RET __CPROVER_return_value

/* arbitrary values */
static size_t nd_size(void) { size_t v; return v; }
static long nd_long(void) { long v; return v; }
static int nd_int(void) { int v; return v; }
static double nd_double(void) { double v; return v; }
static uint64_t vf_in_u;
static double vf_in_d;
static uint64_t vf_u64(void) { uint64_t v = nd_size(); vf_in_u = v; return v; }
static double vf_double(void) { double v = nd_double(); vf_in_d = v; return v; }
static size_t vf_range(size_t lo, size_t hi) { size_t v = vf_u64(); VF_ASSUME(v >= lo && v <= hi); return v; }

/* typed allocation: CBMC gives the object the element type */
#define VF_ARR(T, n) ({ T *vf_p_ = (T *)malloc(sizeof(T) * (n)); __CPROVER_assume(vf_p_ != NULL); vf_p_; })
#define VF_OBJ(T) VF_ARR(T, 1)
static void *vf_new(size_t bytes) { void *p = malloc(bytes); VF_ASSUME(p != NULL); return p; }
static void vf_error_reached(void) {
  __CPROVER_assert(vfg_error_allowed, "VF:the fatal-error handler is not reached on valid input");
  __CPROVER_assume(0);
}
static void *vf_alloc(size_t size) {
  void *p;
  if (size == 0) vf_error_reached();
  p = malloc(size);
  __CPROVER_assume(p != NULL);
  return p;
}

#else /* VF_NATIVE */

#include <setjmp.h>
#include <unistd.h>
static jmp_buf vf_jmp;
static uint64_t vf_log_val[1 << 16];
static char vf_log_kind[1 << 16];
static size_t vf_log_n;
static const char *vf_dump_path;
static FILE *vf_replay;
static uint64_t vf_rng = 88172645463325252ull;
static const char *vf_fail_msg = "crash or sanitizer report";
static int vf_errors_seen;

static void vf_dump(void) {
  size_t i;
  FILE *f;
  if (!vf_dump_path) return;
  f = fopen(vf_dump_path, "w");
  if (!f) return;
  fprintf(f, "# %s\n", vf_fail_msg);
  for (i = 0; i < vf_log_n; i++) {
    if (vf_log_kind[i] == 'd') {
      double d; memcpy(&d, &vf_log_val[i], 8);
      fprintf(f, "d %016llx # %.17g\n", (unsigned long long)vf_log_val[i], d);
    } else fprintf(f, "u %llu\n", (unsigned long long)vf_log_val[i]);
  }
  fclose(f);
  vf_dump_path = NULL;
}
void __sanitizer_set_death_callback(void (*cb)(void));
static uint64_t vf_rand(void) {
  vf_rng ^= vf_rng << 13; vf_rng ^= vf_rng >> 7; vf_rng ^= vf_rng << 17;
  return vf_rng * 2685821657736338717ull;
}
static void vf_record(char k, uint64_t v) {
  if (vf_log_n < sizeof(vf_log_kind)) { vf_log_kind[vf_log_n] = k; vf_log_val[vf_log_n++] = v; }
}
static int vf_from_file(char k, uint64_t *v) {
  char line[256];
  if (!vf_replay) return 0;
  while (fgets(line, sizeof line, vf_replay)) {
    if (line[0] == 'u' && k == 'u') { *v = strtoull(line + 2, NULL, 10); return 1; }
    if (line[0] == 'd' && k == 'd') { *v = strtoull(line + 2, NULL, 16); return 1; }
    if (line[0] == 'u' || line[0] == 'd') { fprintf(stderr, "replay kind mismatch\n"); exit(3); }
  }
  *v = 0; return 1;
}
static void VF_ASSUME_(int c) { if (!c) longjmp(vf_jmp, 1); }
#define VF_ASSUME(c) VF_ASSUME_((c) ? 1 : 0)
static void vf_fail(const char *m) {
  vf_fail_msg = m;
  printf("VF_FAIL %s\n", m); fflush(stdout);
  vf_dump();
  _exit(1);
}
#define VF_ASSERT(c, m) do { if (!(c)) vf_fail(m); } while (0)
#define VF_REACH(m) ((void)0)
static uint64_t vf_u64(void) {
  uint64_t v;
  if (!vf_from_file('u', &v)) {
    uint64_t r = vf_rand();
    v = (r & 3) ? (vf_rand() & 7) : (r & 4) ? vf_rand() : (vf_rand() & 0xffff);
  }
  vf_record('u', v); return v;
}
static size_t vf_range(size_t lo, size_t hi) {
  uint64_t v;
  if (vf_from_file('u', &v)) { vf_record('u', v); VF_ASSUME(v >= lo && v <= hi); return v; }
  if (hi - lo == UINT64_MAX) v = vf_rand();
  else {
    uint64_t r = vf_rand();
    if ((r & 7) == 0) v = lo; else if ((r & 7) == 1) v = hi;
    else if ((r & 7) < 5 && hi - lo > 8) v = lo + vf_rand() % 8;
    else v = lo + vf_rand() % (hi - lo + 1);
  }
  vf_record('u', v); return (size_t)v;
}
static double vf_double(void) {
  uint64_t b; double d;
  static const double sp[] = {0, -0.0, 1, -1, 0.5, -0.5, 1e-8, 5, -5, 100, -100, 1e-300, 1e300, 4.9e-324, DBL_MAX, -DBL_MAX,
    2, 3, 1.5, -1.5, 1e-9, 0.1};
  if (vf_from_file('d', &b)) { memcpy(&d, &b, 8); }
  else {
    uint64_t r = vf_rand();
    switch (r & 7) {
      case 0: d = sp[(r >> 8) % (sizeof sp / sizeof *sp)]; break;
      case 1: d = ((r >> 8) % 61) ? (double)(int)((r >> 16) % 11) - 5 : (((r >> 24) % 3 == 0) ? NAN : ((r >> 24) % 3 == 1) ? INFINITY : -INFINITY); break;
      case 2: case 3: d = (double)(int)((r >> 16) % 21) / 2 - 5; break;
      default: d = ((double)(vf_rand() >> 11) / 9007199254740992.0 - 0.5) * 10; break;
    }
    memcpy(&b, &d, 8);
  }
  vf_record('d', b); return d;
}
static void vf_error_reached(void) {
  vf_errors_seen++;
  if (!vfg_error_allowed) vf_fail("the fatal-error handler is not reached on valid input");
  longjmp(vf_jmp, 1);
}
static void *vf_alloc(size_t size) {
  if (size == 0) vf_error_reached();
  return malloc(size);
}
void harness(void);
#include <signal.h>
static volatile sig_atomic_t vf_stop;
static void vf_alarm(int sig) {
  (void)sig;
  if (!vf_stop) { vf_stop = 1; alarm(15); return; }
  vf_fail("the operation terminates");
}
#ifndef VF_NO_MAIN
int main(int argc, char **argv) { /* main DUMP replay FILE | main DUMP search SEED SECONDS-ITER */
  vf_dump_path = argv[1];
  __sanitizer_set_death_callback(vf_dump);
  if (argc > 3 && !strcmp(argv[2], "replay")) {
    vf_replay = fopen(argv[3], "r");
    if (!vf_replay) return 3;
    signal(SIGALRM, vf_alarm); vf_stop = 1; alarm(20);
    if (setjmp(vf_jmp) == 0) harness(); else { printf("VF_INFEASIBLE\n"); return 2; }
    printf("VF_OK\n");
    return 0;
  }
  {
    static volatile long it, n, feas;
    vf_rng ^= strtoull(argv[3], NULL, 10) * 0x9E3779B97F4A7C15ull;
    n = strtol(argv[4], NULL, 10);
    signal(SIGALRM, vf_alarm);
    alarm(argc > 5 ? (unsigned)atoi(argv[5]) : 30);
    for (it = 0; it < n && !vf_stop; it++) {
      vf_log_n = 0;
      vfg_error_allowed = 0;
      if (setjmp(vf_jmp) == 0) { harness(); feas++; }
    }
    printf("VF_OK %ld feasible of %ld\n", (long)feas, (long)it);
  }
  return 0;
}
#endif
#endif

/* The language-runtime layer (normally coco_runtime_c.c / the Python, Java, Matlab runtimes):
 * coco_error never returns; the message functions have no effect on the library's state;
 * coco_allocate_memory returns a fresh block or reaches coco_error. */
#ifndef VF_REAL_RUNTIME
void coco_error(const char *message, ...) { (void)message; vf_error_reached(); }
void coco_warning(const char *message, ...) { (void)message; }
void coco_info(const char *message, ...) { (void)message; }
void coco_info_partial(const char *message, ...) { (void)message; }
void coco_debug(const char *message, ...) { (void)message; }
void *coco_allocate_memory(const size_t size) { return vf_alloc(size); }
void coco_free_memory(void *data) { free(data); }
const char *coco_version = "vf";
#endif
#if defined(VF_PROOF) && !defined(VF_REAL_RUNTIME)
/* DFCC adds a hidden parameter to every function, which variadic calls would receive in the wrong place:
 * the message functions are called without their (side-effect-free) arguments */
#include "coco.h"
#define coco_error(...) vf_error_reached()
#define coco_warning(...) ((void)0)
#define coco_info(...) ((void)0)
#define coco_info_partial(...) ((void)0)
#define coco_debug(...) ((void)0)
#endif
#endif
