/* Native harness (P18): life cycles of suites, problems, observers and archives in random order; every block and every file is released
 * exactly once (ASan: no double free, no use after free; counters: nothing is left when the user has released what he owns). */
#define _GNU_SOURCE
#define NDEBUG
#define VF_REAL_RUNTIME
#include "vf.h"
#include <ftw.h>
static long vm_live, vm_files;
static void *vm_malloc(size_t n) { void *p = malloc(n); if (p) vm_live++; return p; }
static void *vm_calloc(size_t a, size_t b) { void *p = calloc(a, b); if (p) vm_live++; return p; }
static void vm_free(void *p) { if (p) vm_live--; free(p); }
static FILE *vm_fopen(const char *n, const char *m) { FILE *f = fopen(n, m); if (f) vm_files++; return f; }
static int vm_fclose(FILE *f) { vm_files--; return fclose(f); }
void coco_error(const char *message, ...) { if (getenv("VF_DBG")) puts(message); vf_error_reached(); }
void coco_warning(const char *message, ...) { (void)message; }
void coco_info(const char *message, ...) { (void)message; }
void coco_info_partial(const char *message, ...) { (void)message; }
void coco_debug(const char *message, ...) { (void)message; }
void *coco_allocate_memory(const size_t size) { return vm_malloc(size ? size : 1); }
void coco_free_memory(void *data) { vm_free(data); }
const char *coco_version = "vf";
#define malloc(n) vm_malloc(n)
#define calloc(a, b) vm_calloc(a, b)
#define free(p) vm_free(p)
#define fopen(n, m) vm_fopen(n, m)
#define fclose(f) vm_fclose(f)
#include "coco_random.c"
#include "coco_suite.c"
#include "coco_observer.c"
#include "coco_archive.c"
#define A(P, c, m) do { if (VF_P == (P)) VF_ASSERT(c, m); } while (0)
static int rmf(const char *p, const struct stat *s, int t, struct FTW *f) { (void)s; (void)t; (void)f; return remove(p); }
static double u01(void) { return (double)vf_range(0, 1000003) / 1000003.0; }
typedef struct { const char *suite; size_t nf; const char *dims[2]; const char *obs[4]; } combo_t;
static const combo_t C[] = {
  {"bbob", 24, {"2", "3,5"}, {"bbob", "bbob-old", "toy", "bbob-boxed"}}, {"bbob-boxed", 24, {"2", "3,5"}, {"bbob-boxed", "bbob", "bbob", "rw"}}, {"toy", 6, {"2", "3"}, {"toy", "bbob", "toy", "rw"}},
  {"bbob-noisy", 30, {"2", "3"}, {"bbob-noisy", "bbob", "bbob-noisy", "bbob"}}, {"bbob-constrained", 54, {"2", "3,5"}, {"bbob", "bbob-constrained", "bbob", "bbob"}}, {"bbob-largescale", 24, {"20", "20"}, {"bbob-largescale", "bbob", "bbob", "bbob"}},
  {"bbob-mixint", 24, {"5", "5"}, {"bbob-mixint", "bbob", "bbob", "bbob"}}, {"bbob-biobj", 55, {"2", "3,5"}, {"bbob-biobj", "bbob-biobj", "bbob-biobj", "rw"}}, {"bbob-biobj-ext", 92, {"2", "3"}, {"bbob-biobj-ext", "bbob-biobj", "bbob-biobj-ext", "rw"}},
  {"bbob-biobj-mixint", 92, {"5", "5"}, {"bbob-biobj-mixint", "bbob-biobj", "bbob-biobj", "rw"}}};
static double x[64], y[4], g[300];
static void work(coco_problem_t *p, size_t k) {  /* (coco_suite_get_next_problem starts anew after the end) */
  size_t i, n = coco_problem_get_dimension(p);
  while (k-- > 0) {
    for (i = 0; i < n; i++) x[i] = coco_problem_get_smallest_values_of_interest(p)[i] + u01() * (coco_problem_get_largest_values_of_interest(p)[i] - coco_problem_get_smallest_values_of_interest(p)[i]);
    for (i = 0; i < coco_problem_get_number_of_integer_variables(p); i++) x[i] = floor(x[i] + 0.5);
    if (vf_range(0, 20) == 0) x[0] = NAN;
    if (p->number_of_constraints && p->number_of_constraints < 300) coco_evaluate_constraint(p, x, g);
    coco_evaluate_function(p, x, y);
    if (vf_range(0, 9) == 0) coco_recommend_solution(p, x);
  }
}
static void life(void) {
  const combo_t *c = &C[vf_range(0, sizeof C / sizeof *C - 1)]; char so[200], io[100], oo[300]; coco_suite_t *s; coco_observer_t *o = NULL; coco_problem_t *p, *q; size_t k, n, f = vf_range(1, c->nf), f2 = f < c->nf ? f + 1 : f; int order = (int)vf_range(0, 1), how = (int)vf_range(0, 4);
  snprintf(so, sizeof so, "dimensions: %s function_indices: %lu%s%lu", c->dims[vf_range(0, 1)], (unsigned long)f, f2 > f ? "," : "-", (unsigned long)f2); { unsigned long b = vf_range(0, 3) ? 0 : 12; snprintf(io, sizeof io, "instances: %lu-%lu", b + (unsigned long)vf_range(1, 4), b + (unsigned long)vf_range(5, 6)); } /* beyond 15 the bi-objective suites construct new instances */
  s = coco_suite(c->suite, vf_range(0, 4) ? io : "", so); A(18, s != NULL, "suite created");
  if (vf_range(0, 5)) {
    const char *on = c->obs[vf_range(0, 3)];
    snprintf(oo, sizeof oo, "outer_folder: vfexd result_folder: r%s%s%s", vf_range(0, 1) ? " algorithm_name: A" : "", vf_range(0, 1) ? " algorithm_info: \"some info\"" : "", vf_range(0, 1) ? (strstr(c->suite, "biobj") && vf_range(0, 1) ? " log_nondominated: all log_decision_variables: all" : " base_evaluation_triggers: 1,2,7") : "");
    o = coco_observer(on, oo); A(18, o != NULL, "observer created");
  }
  n = vf_range(0, 6);
  if (how < 3) { /* the loop of the example experiment, ended early or not */
    for (k = 0; k < n; k++) { coco_observer_t *ob = vf_range(0, 8) ? o : NULL; p = coco_suite_get_next_problem(s, ob); if (!p) break; work(p, vf_range(0, 12)); if (ob && vf_range(0, 3) == 0) { coco_observer_signal_restart(o, p); work(p, vf_range(0, 4)); } }
    if (how == 1) { while ((p = coco_suite_get_next_problem(s, o)) != NULL) work(p, 1); }
  } else { /* problems owned by the user */
    for (k = 0; k < n; k++) {
      coco_observer_t *ob = vf_range(0, 3) ? o : NULL;
      p = coco_suite_get_problem(s, vf_range(0, coco_suite_get_number_of_problems(s) - 1)); if (!p) continue; /* filtered out */
      if (vf_range(0, 2) == 0) work(p, vf_range(0, 5));
      q = coco_problem_add_observer(p, ob); work(q, vf_range(0, 12));
      if (ob && vf_range(0, 1)) { p = coco_problem_remove_observer(q, ob); work(p, vf_range(0, 3)); if (vf_range(0, 1)) { p = coco_problem_add_observer(p, ob); work(p, 2); } q = p; }
      if (how == 4 && k + 1 == n && order) { coco_observer_free(o); o = NULL; } /* the observer goes first */
      coco_problem_free(q);
    }
  }
  if (order) coco_observer_free(o);
  coco_suite_free(s);
  if (!order) coco_observer_free(o);
  nftw("vfexd", rmf, 16, FTW_DEPTH | FTW_PHYS);
}
static void archive(void) {
  size_t k, n = vf_range(0, 40); coco_archive_t *a = coco_archive("bbob-biobj", vf_range(1, 55), 2, vf_range(1, 5)); char t[40];
  for (k = 0; k < n; k++) {
    sprintf(t, "s%lu", (unsigned long)k); coco_archive_add_solution(a, (double)vf_range(0, 30) * 40, (double)vf_range(0, 30) * 40, t);
    switch (vf_range(0, 6)) { case 0: coco_archive_get_hypervolume(a); break; case 1: coco_archive_get_next_solution_text(a); break; case 2: coco_archive_get_number_of_solutions(a); default: break; }
  }
  while (vf_range(0, 3) && coco_archive_get_next_solution_text(a)) ;
  coco_archive_free(a);
}
static void stacks(void) {
  size_t n = vf_range(1, 6), k, m = vf_range(0, 4), i; double z[8] = {0}, M[64]; coco_problem_t *p = f_sphere_allocate(n), *q;
  for (k = 0; k < 64; k++) M[k] = u01();
  for (k = 0; k < 8; k++) z[k] = u01() - 0.5;
  for (k = 0; k < m; k++) switch (vf_range(0, 8)) {
    case 0: p = transform_vars_shift(p, z, 0); break; case 1: p = transform_obj_shift(p, 3); break; case 2: p = transform_vars_affine(p, M, z, n); break; case 3: p = transform_vars_oscillate(p); break; case 4: p = transform_obj_power(p, 2); break;
    case 5: p = transform_vars_asymmetric(p, 0.2); break; case 6: p = transform_obj_penalize(p, 10); break; case 7: p = transform_obj_oscillate(p); break; default: p = transform_obj_scale(p, 3);
  }
  if (vf_range(0, 1)) { double lo[8], hi[8]; for (i = 0; i < 8; i++) lo[i] = -5, hi[i] = 5; for (i = 0; i < n; i++) z[i] += 1;
    q = c_guarantee_feasible_point(c_linear_transform(c_sum_variables_allocate(n), z, 0.5), z); p = coco_problem_stacked_allocate(p, q, lo, hi); p->best_value[0] = -1e30; }
  for (i = 0; i < 8; i++) x[i] = u01();
  if (vf_range(0, 1)) coco_evaluate_function(p, x, y);
  coco_problem_free(p);
}
void harness(void) {
  long live = vm_live, files = vm_files;
  coco_log_level = COCO_ERROR; vfg_error_allowed = 0; coco_reset_seeds();
  switch (vf_range(0, 5)) { case 0: archive(); break; case 1: stacks(); break; default: life(); }
  A(18, vm_files == files, "every file is closed exactly once");
  A(18, vm_live == live, "every block is released");
}
