/* Contracts on the objective transformations (transform_obj_*.c): the wrapped problem is evaluated exactly once at the
 * point handed in, every objective value is mapped as documented, and nothing else changes. */
#define NDEBUG
#include "vf.h"
#include "ghost.h"
#ifdef O_OSZ
#define VF_SIGNS
#endif
#include "um.h"
#define fabs(v) __CPROVER_fabs(v)
#include "coco_problem.c"
#include "c_util.h"
static size_t vfg_calls, vfg_n, vfg_m, vfg_wbox;
static coco_problem_t *vfg_inner;
static const double *vfg_x;
static double vfg_yJ, vfg_img, vfg_pen, vfg_nf;
static int vfg_set, vfg_out;

void ct_inner_eval(coco_problem_t *problem, const double *x, double *y)
__CPROVER_requires(problem == vfg_inner && x == vfg_x)
__CPROVER_requires(__CPROVER_w_ok(y, vfg_m * sizeof(double)))
__CPROVER_assigns(vfg_calls, vfg_yJ, __CPROVER_object_upto(y, vfg_m * sizeof(double)))
__CPROVER_ensures(vfg_calls == VF_OLD(vfg_calls) + 1 && VF_SAME(vfg_yJ, y[vfg_J]))
;
static void stub_eval(coco_problem_t *problem, const double *x, double *y) {
  VF_ASSERT(problem == vfg_inner && x == vfg_x, "the wrapped problem is evaluated at the point handed in");
  vfg_calls++;
  __CPROVER_havoc_object(y);
  vfg_yJ = y[vfg_J];
}
int ct_feas(coco_problem_t *problem, const double *x, double *constraint_values)
__CPROVER_assigns(constraint_values != NULL : __CPROVER_object_whole(constraint_values))
;
#define TD_ ((coco_problem_transformed_data_t *)problem->data)
#if defined(O_SHIFT)
#define DATA transform_obj_shift_data_t
#define FN transform_obj_shift_evaluate_function
#include "transform_obj_shift.c"
#elif defined(O_SCALE)
#define DATA transform_obj_scale_data_t
#define FN transform_obj_scale_evaluate_function
#include "transform_obj_scale.c"
#elif defined(O_POWER)
#define DATA transform_obj_power_data_t
#define FN transform_obj_power_evaluate
#include "transform_obj_power.c"
#elif defined(O_OSZ)
#define FN transform_obj_oscillate_evaluate
/* 0 and the infinities stay what they are, the sign is kept; the formula itself is checked by the native harness only */
#define RESULT OREL(vfg_yJ, y[vfg_J])
#define OREL(v, r) (((v) == 0 || __CPROVER_isinfd(v)) ? VF_SAME(v, r) : (v) > 0 ? !((r) < 0) : (v) < 0 ? !((r) > 0) : 1)
#include "transform_obj_oscillate.c"
#elif defined(O_PEN)
#define DATA transform_obj_penalize_data_t
#define FN transform_obj_penalize_evaluate
#define EXTRA(d) p->smallest_values_of_interest = mk_vec(n); p->largest_values_of_interest = mk_vec(n); VF_ASSUME((d)->factor > 0 && (d)->factor < 1e6);
#define OUT(k) (x[k] > problem->largest_values_of_interest[k] || x[k] < problem->smallest_values_of_interest[k])
/* no coordinate outside the box: no penalty */
#define RESULT (vfg_out == 0 ==> VF_SAME(y[vfg_J], vfg_yJ)) && (VF_FIN(vfg_yJ) ==> !(y[vfg_J] < vfg_yJ)) && (vfg_out == 0 ==> !OUT(vfg_K))
#include "transform_obj_penalize.c"
#elif defined(O_NORM)
#define FN transform_obj_norm_by_dim_evaluate
#define RESULT (vfg_J > 0 ==> VF_SAME(y[vfg_J], vfg_yJ)) && (problem->number_of_variables <= 40 ==> VF_SAME(y[vfg_J], vfg_yJ))
#define NONAN
#include "suite_bbob_legacy_code.c"
#include "transform_obj_norm_by_dim.c"
#endif
#ifndef RESULT
#define RESULT (vfg_set == 1 && VF_SAME(y[vfg_J], vfg_img))
#endif
#ifndef EXTRA
#define EXTRA(d)
#endif
void ct_fn(coco_problem_t *problem, const double *x, double *y)
__CPROVER_requires(vfg_calls == 0 && vfg_set == 0 && vfg_out == 0)
__CPROVER_assigns(vfg_calls, vfg_yJ, vfg_wnan, vfg_img, vfg_set, vfg_out, __CPROVER_object_whole(y))
__CPROVER_ensures(vfg_calls <= 1)
__CPROVER_ensures(vfg_calls == 1 ==> (RESULT))
__CPROVER_ensures(vfg_calls == 0 ==> (vfg_wnan < vfg_n && VF_NAN(x[vfg_wnan]) && VF_NAN(y[vfg_J])))
;
static double *mk_vec(size_t n) { return VF_ARR(double, n); }
void h_o(void) {
  size_t n = nd_size(), m = nd_size(), c = nd_size();
  coco_problem_t *p = VF_OBJ(coco_problem_t), *q = VF_OBJ(coco_problem_t);
  coco_problem_transformed_data_t *t = VF_OBJ(coco_problem_transformed_data_t);
  double *x, *y;
  VF_ASSUME(n > 0 && n <= VF_NMAX && m > 0 && m <= VF_NMAX && c <= VF_NMAX);
  p->number_of_variables = q->number_of_variables = n; p->number_of_objectives = q->number_of_objectives = m; p->number_of_constraints = q->number_of_constraints = c;
  q->evaluate_function = stub_eval; p->data = t; t->inner_problem = q; vfg_inner = q; vfg_n = n; vfg_m = m;
  vfg_K = nd_size(); vfg_J = nd_size(); VF_ASSUME(vfg_K < n && vfg_J < m);
#ifdef DATA
  { DATA *d = VF_OBJ(DATA); t->data = d; EXTRA(d) }
#endif
  x = mk_vec(n); y = mk_vec(m); vfg_x = x; vfg_calls = 0; vfg_set = 0; vfg_out = 0;
  FN(p, x, y);
  if (vfg_calls == 1) VF_REACH("evaluated");
  if (vfg_calls == 1 && vfg_J > 3) VF_REACH("evaluated, objective above 3");
  if (vfg_calls == 1 && VF_FIN(y[vfg_J])) VF_REACH("finite value");
}
