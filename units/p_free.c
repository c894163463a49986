/* Contracts on release: what a problem, suite, observer or archive owns is released exactly once, wrapped problems are released through
 * their own release function exactly once, borrowed data stays.
 *   vfg_W: an arbitrary owned block; vfg_nW: how often it was released; vfg_total, vfg_owned: blocks released / owned.
 * Every release is a real free(): the verifier checks double release and use after release as well. */
#define NDEBUG
#include "vf.h"
#include "ghost.h"
static void *vfg_W; static size_t vfg_nW, vfg_total, vfg_owned;
static void vm_free(void *p) { if (p) { vfg_total++; if (p == vfg_W) vfg_nW++; } free(p); }
#define coco_free_memory(p) vm_free(p)
#ifdef F_SUITE
#include "coco_suite.c"
#elif defined(F_OBS)
#include "coco_observer.c"
#elif defined(F_ARCH)
#include "coco_archive.c"
#else
#include "coco_problem.c"
#include "transform_vars_affine.c"
#include "c_linear.c"
#ifdef T_FREE
#include "transform_vars_asymmetric.c"
#include "transform_vars_brs.c"
#include "transform_vars_conditioning.c"
#include "transform_vars_discretize.c"
#include "transform_vars_oscillate.c"
#include "transform_vars_permutation.c"
#include "transform_vars_round_step.c"
#include "transform_vars_scale.c"
#include "transform_vars_shift.c"
#include "transform_vars_x_hat.c"
#include "transform_vars_x_hat_generic.c"
#include "transform_vars_z_hat.c"
#endif
#endif
static size_t vfg_calls, vfg_f1, vfg_f2, vfg_fd; static void *vfg_data; static coco_problem_t *vfg_p, *vfg_p1, *vfg_p2;
static int vfg_pick;
/* an owned block (or none); one of them is the witness */
static void own(void *b) { if (b) { vfg_owned++; if (nd_int()) vfg_W = b; } }
static void *opt(size_t n) { void *b = nd_int() ? malloc(n) : NULL; own(b); return b; }
static void *must(size_t n) { void *b = malloc(n); VF_ASSUME(b != NULL); own(b); return b; }
#define ONCE __CPROVER_requires(vfg_nW == 0 && vfg_total == 0) \
__CPROVER_ensures(vfg_total == vfg_owned && (vfg_W != NULL ==> vfg_nW == 1))
#define GHOSTS vfg_nW, vfg_total
#define FIELDS(p) (p)->smallest_values_of_interest, (p)->largest_values_of_interest, (p)->best_parameter, (p)->best_value, (p)->nadir_value, (p)->problem_name, (p)->problem_id, (p)->problem_type, (p)->data, (p)->initial_solution, (p)->last_noise_free_values
#if !defined(F_SUITE) && !defined(F_OBS) && !defined(F_ARCH)
static coco_problem_t *mk(void) {
  coco_problem_t *p = must(sizeof *p);
  p->smallest_values_of_interest = opt(8); p->largest_values_of_interest = opt(8); p->best_parameter = opt(8); p->best_value = opt(8); p->nadir_value = opt(8);
  p->problem_name = opt(1); p->problem_id = opt(1); p->problem_type = opt(1); p->initial_solution = opt(8); p->last_noise_free_values = opt(8);
  return p;
}
static void stub_free(coco_problem_t *p) { VF_ASSERT(p == vfg_p, "the release function is called with the problem"); vfg_calls++; }
static void stub_data_free(void *d) { VF_ASSERT(d == vfg_data && vfg_nW == 0 && vfg_total == 0, "the data's release function is called with the data, before anything is released"); vfg_fd++; }
void ct_free_generic(coco_problem_t *problem)
__CPROVER_requires(problem == vfg_p && problem->problem_free_function == NULL)
ONCE
__CPROVER_assigns(GHOSTS, __CPROVER_object_whole(problem))
__CPROVER_frees(problem, FIELDS(problem))
;
void ct_free_special(coco_problem_t *problem)
__CPROVER_requires(problem == vfg_p && vfg_calls == 0 && vfg_total == 0)
__CPROVER_assigns(vfg_calls)
__CPROVER_ensures(vfg_calls == 1 && vfg_total == 0)
;
/* coco_problem_free as used below: a component through its own release function, the problem itself generically (see ct_free_generic) */
void st_pfree(coco_problem_t *problem) {
  VF_ASSERT((problem == vfg_p && problem->problem_free_function == NULL) || (problem == vfg_p1 && problem != NULL) || (problem == vfg_p2 && problem != NULL), "a component or, generically, the problem itself is released");
  if (problem == vfg_p) vfg_calls++; else if (problem == vfg_p1) vfg_f1++; else vfg_f2++;
  free(problem);
}
/* wrapper data: released through its function (if any) and then as a block, the wrapped problem is not touched */
void ct_free_data(coco_problem_t *problem)
__CPROVER_requires(problem == vfg_p && vfg_calls == 0 && vfg_fd == 0 && vfg_f1 == 0)
__CPROVER_requires(vfg_nW == 0 && vfg_total == 0)
__CPROVER_assigns(vfg_calls, vfg_fd, GHOSTS, __CPROVER_object_whole(problem), __CPROVER_object_whole(problem->data))
__CPROVER_frees(problem, ((coco_problem_transformed_data_t *)problem->data)->data)
__CPROVER_ensures(vfg_calls == 1 && vfg_f1 == 0 && vfg_total == vfg_owned && (vfg_W != NULL ==> vfg_nW == 1))
__CPROVER_ensures(vfg_fd == (vfg_data != NULL && vfg_pick != 0))
;
void ct_free_data_use(coco_problem_t *problem)
__CPROVER_requires(problem == vfg_p && vfg_f1 == 1 && vfg_fd == 0 && vfg_calls == 0)
__CPROVER_assigns(vfg_fd, vfg_calls)
__CPROVER_frees(problem)
__CPROVER_ensures(vfg_fd == 1 && vfg_calls == 1)
;
void ct_transformed_free(coco_problem_t *problem)
__CPROVER_requires(problem == vfg_p && vfg_f1 == 0 && vfg_fd == 0 && vfg_calls == 0)
__CPROVER_assigns(vfg_f1, vfg_fd, vfg_calls, __CPROVER_object_whole(problem->data))
__CPROVER_frees(problem, vfg_p1)
__CPROVER_ensures(vfg_f1 == 1 && vfg_fd == 1)
;
void ct_stacked_free(coco_problem_t *problem)
__CPROVER_requires(problem == vfg_p && vfg_f1 == 0 && vfg_f2 == 0 && vfg_calls == 0)
__CPROVER_assigns(vfg_f1, vfg_f2, vfg_calls, __CPROVER_object_whole(problem), __CPROVER_object_whole(problem->data))
__CPROVER_frees(problem, vfg_p1, vfg_p2)
__CPROVER_ensures(vfg_f1 == (vfg_p1 != NULL) && vfg_f2 == (vfg_p2 != NULL) && vfg_calls == 1)
;
/* the data of a constraint / transformation: its arrays, not the block itself (that is the wrapper's) */
void ct_linear_free(void *thing)
ONCE
__CPROVER_assigns(GHOSTS, __CPROVER_object_whole(thing))
__CPROVER_frees(((linear_constraint_data_t *)thing)->gradient, ((linear_constraint_data_t *)thing)->x)
;
void ct_affine_free(void *thing)
ONCE
__CPROVER_assigns(GHOSTS, __CPROVER_object_whole(thing))
__CPROVER_frees(((transform_vars_affine_data_t *)thing)->M, ((transform_vars_affine_data_t *)thing)->b, ((transform_vars_affine_data_t *)thing)->x)
;
#ifdef T_FREE
#ifdef T_B
#define T_FIELDS ((T_TYPE *)thing)->T_A, ((T_TYPE *)thing)->T_B
#else
#define T_FIELDS ((T_TYPE *)thing)->T_A
#endif
void ct_t_free(void *thing)
ONCE
__CPROVER_assigns(GHOSTS, __CPROVER_object_whole(thing))
__CPROVER_frees(T_FIELDS)
;
#endif
#endif
#ifdef F_SUITE
static coco_suite_t *vfg_s;
static void stub_data_free(void *d) { VF_ASSERT(d == vfg_data && !(vfg_W == d && vfg_nW != 0), "the data's release function is called with the data, before it is released"); vfg_fd++; }
void ct_free_current(coco_problem_t *problem)
__CPROVER_requires(problem == vfg_p && problem != NULL && vfg_f1 == 0 && vfg_fd == 0)
__CPROVER_assigns(vfg_f1)
__CPROVER_frees(problem)
__CPROVER_ensures(vfg_f1 == 1)
;
void ct_suite_free(coco_suite_t *suite)
__CPROVER_requires(suite == vfg_s && vfg_f1 == 0 && vfg_fd == 0)
ONCE
__CPROVER_assigns(suite != NULL: __CPROVER_object_whole(suite)) __CPROVER_assigns(GHOSTS, vfg_f1, vfg_fd)
__CPROVER_frees(suite != NULL: suite, suite->suite_name, suite->dimensions, suite->functions, suite->instances, suite->default_instances, suite->data, vfg_p)
__CPROVER_ensures(vfg_f1 == (suite != NULL && vfg_p != NULL) && vfg_fd == (suite != NULL && vfg_data != NULL && vfg_pick != 0))
;
/* handing out the next problem: the previous one is released exactly if there is a next one, which becomes the current one */
static int vfg_has1, vfg_has2, vfg_has3; static coco_problem_t *vfg_new; static coco_observer_t *vfg_o; static size_t vfg_got, vfg_added;
#define NEXT(name, flag, idx) int name(coco_suite_t *suite) __CPROVER_requires(suite == vfg_s && vfg_f1 == 0) __CPROVER_assigns(suite->current_function_idx, suite->current_dimension_idx, suite->current_instance_idx) \
__CPROVER_ensures((VF_RET != 0) == (flag != 0) && suite->current_function_idx >= 0 && suite->current_dimension_idx >= 0 && suite->current_instance_idx >= 0) ;
NEXT(ct_next_i, vfg_has1, 0) NEXT(ct_next_f, vfg_has2, 0) NEXT(ct_next_d, vfg_has3, 0)
coco_problem_t *ct_get(coco_suite_t *suite, const size_t fi, const size_t di, const size_t ii)
__CPROVER_requires(suite == vfg_s && fi == (size_t)suite->current_function_idx && di == (size_t)suite->current_dimension_idx && ii == (size_t)suite->current_instance_idx)
__CPROVER_requires(vfg_f1 == (vfg_p != NULL) && vfg_got == 0)
__CPROVER_assigns(vfg_got)
__CPROVER_ensures(vfg_got == 1 && VF_RET == vfg_new)
;
coco_problem_t *ct_add(coco_problem_t *problem, coco_observer_t *observer)
__CPROVER_requires(problem == vfg_new && observer == vfg_o && vfg_got == 1 && vfg_added == 0)
__CPROVER_assigns(vfg_added)
__CPROVER_ensures(vfg_added == 1 && VF_RET == vfg_new + 1)
;
coco_problem_t *ct_next(coco_suite_t *suite, coco_observer_t *observer)
__CPROVER_requires(suite == vfg_s && observer == vfg_o && vfg_f1 == 0 && vfg_got == 0 && vfg_added == 0)
__CPROVER_assigns(vfg_f1, vfg_got, vfg_added, suite->current_function_idx, suite->current_dimension_idx, suite->current_instance_idx, suite->current_problem)
__CPROVER_frees(vfg_p)
#define HAS (vfg_has1 || vfg_has2 || vfg_has3)
__CPROVER_ensures(vfg_f1 == (HAS && vfg_p != NULL) && vfg_got == HAS && vfg_added == (HAS && vfg_o != NULL))
__CPROVER_ensures(VF_RET == (HAS ? (vfg_o != NULL ? vfg_new + 1 : vfg_new) : NULL) && suite->current_problem == (HAS ? VF_RET : vfg_p))
;
#endif
#ifdef F_OBS
static coco_observer_t *vfg_o;
static void stub_data_free(void *d) { VF_ASSERT(d == vfg_data && !(vfg_W == d && vfg_nW != 0) && vfg_o->is_active == 0, "the data's release function is called with the data, before it is released, on an inactive observer"); vfg_fd++; }
void ct_observer_free(coco_observer_t *observer)
__CPROVER_requires(observer == vfg_o && vfg_fd == 0)
ONCE
__CPROVER_assigns(observer != NULL: __CPROVER_object_whole(observer)) __CPROVER_assigns(GHOSTS, vfg_fd)
__CPROVER_frees(observer != NULL: observer, observer->observer_name, observer->result_folder, observer->algorithm_name, observer->algorithm_info, observer->base_evaluation_triggers, observer->data)
__CPROVER_ensures(vfg_fd == (observer != NULL && vfg_data != NULL && vfg_pick != 0))
;
void ct_targets_free(coco_observer_targets_t *targets)
ONCE
__CPROVER_assigns(GHOSTS)
__CPROVER_frees(targets, targets->lin_targets, targets->log_targets)
;
void ct_evaluations_free(coco_observer_evaluations_t *evaluations)
ONCE
__CPROVER_assigns(GHOSTS)
__CPROVER_frees(evaluations, evaluations->base_evaluations)
;
/* taking the observer off: the wrapper goes, the wrapped problem is handed back untouched */
void ct_free_data_use(coco_problem_t *problem)
__CPROVER_requires(problem == vfg_p && vfg_calls == 0)
__CPROVER_assigns(vfg_calls)
__CPROVER_frees(problem)
__CPROVER_ensures(vfg_calls == 1)
;
coco_problem_t *ct_remove_observer(coco_problem_t *problem, coco_observer_t *observer)
__CPROVER_requires(problem == vfg_p && observer == vfg_o && vfg_calls == 0 && vfg_nW == 0 && vfg_total == 0)
__CPROVER_assigns(vfg_calls, GHOSTS)
__CPROVER_frees(problem)
__CPROVER_ensures(VF_RET == (vfg_pick ? vfg_p1 : vfg_p) && vfg_calls == (vfg_pick != 0) && vfg_total == (vfg_pick != 0))
;
char *st_prefix(const char *s, const char *a, const char *b) { char *r = malloc(1); (void)s; (void)a; (void)b; VF_ASSUME(r != NULL); return r; }
int st_strcmp(const char *a, const char *b) { (void)a; (void)b; return 0; }
#endif
void h(void) {
  vfg_owned = 0; vfg_W = NULL; vfg_p = vfg_p1 = vfg_p2 = NULL; vfg_data = NULL; vfg_calls = vfg_f1 = vfg_f2 = vfg_fd = 0;
#if defined(P_GENERIC)
  { vfg_p = mk(); vfg_p->data = opt(8); vfg_p->problem_free_function = NULL; coco_problem_free(vfg_p); if (vfg_owned == 12) VF_REACH("everything owned"); if (vfg_owned == 1) VF_REACH("nothing owned"); }
#elif defined(P_SPECIAL)
  { vfg_p = mk(); vfg_p->data = opt(8); vfg_p->problem_free_function = stub_free; coco_problem_free(vfg_p); VF_REACH("released"); }
#elif defined(P_DATA)
  { coco_problem_transformed_data_t *d = malloc(sizeof *d); VF_ASSUME(d != NULL); vfg_p = malloc(sizeof *vfg_p); VF_ASSUME(vfg_p != NULL); vfg_p1 = malloc(sizeof *vfg_p1);
    vfg_p->data = d; d->inner_problem = vfg_p1; d->data = opt(8); vfg_data = d->data; vfg_pick = nd_int(); d->data_free_function = vfg_pick ? stub_data_free : NULL;
    coco_problem_transformed_free_data(vfg_p); if (vfg_fd) VF_REACH("with data"); if (!vfg_owned) VF_REACH("without data"); }
#elif defined(P_TRANS)
  { coco_problem_transformed_data_t *d = malloc(sizeof *d); VF_ASSUME(d != NULL); vfg_p = malloc(sizeof *vfg_p); vfg_p1 = malloc(sizeof *vfg_p1); VF_ASSUME(vfg_p && vfg_p1);
    vfg_p->data = d; d->inner_problem = vfg_p1; coco_problem_transformed_free(vfg_p); VF_REACH("released"); }
#elif defined(P_STACKED)
  { coco_problem_stacked_data_t *d = malloc(sizeof *d); VF_ASSUME(d != NULL); vfg_p = malloc(sizeof *vfg_p); VF_ASSUME(vfg_p != NULL);
    vfg_p1 = nd_int() ? malloc(sizeof *vfg_p1) : NULL; vfg_p2 = nd_int() ? malloc(sizeof *vfg_p2) : NULL; vfg_p->data = d; d->problem1 = vfg_p1; d->problem2 = vfg_p2; coco_problem_stacked_free(vfg_p); if (vfg_f1 && vfg_f2) VF_REACH("both"); }
#elif defined(P_LINEAR)
  { linear_constraint_data_t *d = malloc(sizeof *d); VF_ASSUME(d != NULL); d->gradient = opt(8); d->x = opt(8); c_linear_gradient_free(d); if (vfg_owned == 2) VF_REACH("both arrays"); }
#elif defined(P_AFFINE)
  { transform_vars_affine_data_t *d = malloc(sizeof *d); VF_ASSUME(d != NULL); d->M = opt(8); d->b = opt(8); d->x = opt(8); transform_vars_affine_free(d); if (vfg_owned == 3) VF_REACH("all arrays"); }
#elif defined(T_FREE)
  { T_TYPE *d = malloc(sizeof *d); size_t all = 1; VF_ASSUME(d != NULL); d->T_A = opt(8);
#ifdef T_B
    d->T_B = opt(8); all = 2;
#endif
    T_FREE(d); if (vfg_owned == all) VF_REACH("all arrays"); }
#elif defined(S_FREE)
  { coco_suite_t *s = nd_int() ? must(sizeof *s) : NULL; vfg_s = s;
    if (s) { s->suite_name = opt(1); s->dimensions = opt(8); s->functions = opt(8); s->instances = opt(8); s->default_instances = opt(8); s->data = opt(8); vfg_data = s->data;
      vfg_p = nd_int() ? malloc(sizeof *vfg_p) : NULL; s->current_problem = vfg_p; vfg_pick = nd_int(); s->data_free_function = vfg_pick ? stub_data_free : NULL; }
    coco_suite_free(s); if (s == NULL) VF_REACH("no suite"); if (vfg_owned == 7 && vfg_f1 && vfg_fd) VF_REACH("everything owned"); }
#elif defined(S_NEXT)
  { coco_suite_t *s = malloc(sizeof *s); coco_problem_t *r; VF_ASSUME(s != NULL); vfg_s = s; vfg_p = nd_int() ? malloc(sizeof *vfg_p) : NULL; s->current_problem = vfg_p; vfg_new = malloc(2 * sizeof *vfg_new); VF_ASSUME(vfg_new != NULL);
    s->dimensions = NULL; s->functions = NULL; VF_ASSUME(coco_log_level < COCO_INFO);
    vfg_o = nd_int() ? malloc(8) : NULL; vfg_has1 = nd_int(); vfg_has2 = nd_int(); vfg_has3 = nd_int(); r = coco_suite_get_next_problem(s, vfg_o); if (r == NULL) VF_REACH("end"); if (r == vfg_new + 1) VF_REACH("observed problem"); }
#elif defined(O_FREE)
  { coco_observer_t *o = nd_int() ? must(sizeof *o) : NULL; vfg_o = o;
    if (o) { o->observer_name = opt(1); o->result_folder = opt(1); o->algorithm_name = opt(1); o->algorithm_info = opt(1); o->base_evaluation_triggers = opt(1); o->data = opt(8); vfg_data = o->data; vfg_pick = nd_int(); o->data_free_function = vfg_pick ? stub_data_free : NULL; }
    coco_observer_free(o); if (o == NULL) VF_REACH("no observer"); if (vfg_owned == 7 && vfg_fd) VF_REACH("everything owned"); }
#elif defined(O_TARGETS)
  { coco_observer_targets_t *t = must(sizeof *t); int l = nd_int(); t->lin_targets = opt(8); t->use_log_targets = l; if (l) t->log_targets = opt(8); else t->log_targets = NULL; coco_observer_targets_free(t); if (vfg_owned == 3) VF_REACH("both"); }
#elif defined(O_EVALS)
  { coco_observer_evaluations_t *e = must(sizeof *e); e->base_evaluations = opt(8); coco_observer_evaluations_free(e); if (vfg_owned == 2) VF_REACH("all"); }
#elif defined(O_REMOVE)
  { coco_problem_transformed_data_t *d = malloc(sizeof *d); coco_observer_t *o = nd_int() ? malloc(sizeof *o) : NULL; coco_problem_t *r; VF_ASSUME(d != NULL); vfg_p = malloc(sizeof *vfg_p); vfg_p1 = malloc(sizeof *vfg_p1); VF_ASSUME(vfg_p && vfg_p1); vfg_o = o;
    vfg_p->data = d; d->inner_problem = vfg_p1; vfg_pick = o && o->is_active; r = coco_problem_remove_observer(vfg_p, o); if (r == vfg_p1) VF_REACH("taken off"); if (r == vfg_p) VF_REACH("not observed"); }
#endif
}
