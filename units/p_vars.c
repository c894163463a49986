/* Contracts on the variable transformations (transform_vars_*.c): the wrapped problem is evaluated exactly once, at
 * the documented image of x, its values are handed back, and nothing but the outputs and the scratch vector changes. */
#define NDEBUG
#include "vf.h"
#include "ghost.h"
#if defined(V_OSZ) || defined(V_ASY) || defined(V_BRS) || defined(V_COND)
#define VF_SIGNS
#endif
#include "um.h"
#define fabs(v) __CPROVER_fabs(v)
#include "coco_problem.c"
#include "c_util.h"

static size_t vfg_calls, vfg_cc, vfg_n, vfg_m, vfg_nc;
static coco_problem_t *vfg_inner;
static double vfg_xK, vfg_yJ, *vfg_yp, vfg_u, vfg_x0;
static int vfg_upd;
static long vfg_seed;
static size_t vfg_wbox;
static double vfg_img; /* the documented image of coordinate vfg_K, computed by a ghost statement from x and the parameters of the transformation */
static int vfg_set;
static const double *vfg_ub;

/* coco_evaluate_function on the wrapped problem: arbitrary values, recorded */
void ct_inner_eval(coco_problem_t *problem, const double *x, double *y)
__CPROVER_requires(problem == vfg_inner)
__CPROVER_requires(__CPROVER_r_ok(x, vfg_n * sizeof(double)) && __CPROVER_w_ok(y, vfg_m * sizeof(double)))
__CPROVER_assigns(vfg_calls, vfg_xK, vfg_yJ, vfg_yp, __CPROVER_object_upto(y, vfg_m * sizeof(double)))
__CPROVER_ensures(vfg_calls == VF_OLD(vfg_calls) + 1 && VF_SAME(vfg_xK, x[vfg_K]) && VF_SAME(vfg_yJ, y[vfg_J]) && vfg_yp == y)
;
int ct_feas(coco_problem_t *problem, const double *x, double *constraint_values)
__CPROVER_assigns(constraint_values != NULL : __CPROVER_object_whole(constraint_values))
;
void ct_unif(double *r, size_t N, long inseed)
__CPROVER_requires(N == vfg_n && __CPROVER_w_ok(r, N * sizeof(double)))
__CPROVER_assigns(__CPROVER_object_upto(r, N * sizeof(double)), vfg_u, vfg_seed)
__CPROVER_ensures(vfg_seed == inseed && vfg_u == r[vfg_K])
;
double *ct_dup(const double *src, const size_t number_of_elements)
__CPROVER_requires(number_of_elements == vfg_n && __CPROVER_r_ok(src, number_of_elements * sizeof(double)))
__CPROVER_assigns()
__CPROVER_ensures(__CPROVER_is_fresh(VF_RET, number_of_elements * sizeof(double)))
__CPROVER_ensures(VF_SAME(VF_RET[vfg_K], src[vfg_K]))
;
static void stub_cons(coco_problem_t *problem, const double *x, double *y, int update_counter) {
  vfg_cc++; vfg_xK = x[vfg_K]; vfg_upd = update_counter; vfg_yp = y;
  __CPROVER_havoc_object(y);
  vfg_yJ = y[vfg_J];
}

/* image of coordinate k of x under the discretisation (documented in transform_vars_discretize.c) */
static double spec_disc(const double *x, coco_problem_t *p, coco_problem_t *q, const double *off, size_t k) {
  double ol = p->smallest_values_of_interest[k], ou = p->largest_values_of_interest[k], il = q->smallest_values_of_interest[k], iu = q->largest_values_of_interest[k];
  int n = coco_double_to_int(ou) - coco_double_to_int(ol) + 1;
  double gl = il + (iu - il) / (n + 1), gu = iu - (iu - il) / (n + 1), r = coco_double_round(x[k]);
  if (r < ol) r = ol;
  if (r > ou) r = ou;
  return gl + (gu - gl) * (r - ol) / (ou - ol) - off[k];
}
#define ROUND(v) floor((v) + 0.5)
#define TOSZ_P(v, a) pow(exp(log(v) / (a) + 0.49 * (sin(log(v) / (a)) + sin(0.79 * (log(v) / (a))))), (a))
#define TOSZ_N(v, a) (-pow(exp(log(-(v)) / (a) + 0.49 * (sin(0.55 * (log(-(v)) / (a))) + sin(0.31 * (log(-(v)) / (a))))), (a)))
#define TOSZ(v, a) ((v) > 0.0 ? TOSZ_P(v, a) : (v) < 0.0 ? TOSZ_N(v, a) : 0.0)
#define TASY(v, b, i, n) ((v) > 0.0 ? pow((v), 1.0 + (((b) * (double)(long)(i)) / ((double)(long)(n) - 1.0)) * sqrt(v)) : (v))

#ifdef V_ASY
/* a coordinate that is not positive is handed on as it is, a positive one does not become negative */
#define REL(v, r) ((v) > 0 ? !((r) < 0) : VF_SAME(v, r))
#elif defined(VF_SIGNS)
/* zero stays zero, signs are kept */
#define REL(v, r) ((v) == 0 ? (r) == 0 || VF_NAN(r) : (v) > 0 ? !((r) < 0) : (v) < 0 ? !((r) > 0) : 1)
#elif defined(V_ROUND)
/* beyond one half: to a nearest integer */
#define REL(v, r) ((v) > 0.5 && (v) < 1e9 || (v) < -0.5 && (v) > -1e9 ? (r) - (v) <= 0.5000001 && (v) - (r) <= 0.5000001 && (r) == (double)(long)(r) : 1)
#else
#define REL(v, r) 1
#endif
#define N_ (problem->number_of_variables)
#define K_ vfg_K
#define TD_ ((coco_problem_transformed_data_t *)problem->data)
#if defined(V_SHIFT)
#define DATA transform_vars_shift_data_t
#define FN transform_vars_shift_evaluate_function
#define CFN transform_vars_shift_evaluate_constraint
#define BUF shifted_x
#define EXTRA(d) (d)->offset = mk_vec(n);
#include "transform_vars_shift.c"
#elif defined(V_SCALE)
#define DATA transform_vars_scale_data_t
#define FN transform_vars_scale_evaluate
#define BUF x
#include "transform_vars_scale.c"
#elif defined(V_OSZ)
#define DATA transform_vars_oscillate_data_t
#define FN transform_vars_oscillate_evaluate_function
#define CFN transform_vars_oscillate_evaluate_constraint
#define BUF oscillated_x
#include "transform_vars_oscillate.c"
#elif defined(V_ASY)
#define DATA transform_vars_asymmetric_data_t
#define FN transform_vars_asymmetric_evaluate_function
#define CFN transform_vars_asymmetric_evaluate_constraint
#define BUF x
#include "transform_vars_asymmetric.c"
#elif defined(V_BRS)
#define DATA transform_vars_brs_data_t
#define FN transform_vars_brs_evaluate
#define BUF x
#include "transform_vars_brs.c"
#elif defined(V_COND)
#define DATA transform_vars_conditioning_data_t
#define FN transform_vars_conditioning_evaluate
#define EXTRA(d) VF_ASSUME((d)->alpha > 0);
#define BUF x
#include "transform_vars_conditioning.c"
#elif defined(V_ROUND)
#define DATA transform_vars_round_step_data_t
#define FN transform_vars_round_step_evaluate
#define BUF rounded_x
#define VERS ((f_step_ellipsoid_versatile_data_t *)problem->versatile_data)
#define EXTRA(d) p->versatile_data = vf_new(sizeof(f_step_ellipsoid_versatile_data_t));
#define MORE_ASSIGNS __CPROVER_assigns(VERS->zhat_1)
#include "transform_vars_round_step.c"
#elif defined(V_XHAT)
#define DATA transform_vars_x_hat_data_t
#define FN transform_vars_x_hat_evaluate
#define BUF x
#define MORE_ASSIGNS __CPROVER_assigns(vfg_u, vfg_seed)
#define MORE __CPROVER_ensures(vfg_calls == 0 || vfg_seed == ((DATA *)TD_->data)->seed)
#include "transform_vars_x_hat.c"
#elif defined(V_XHATG)
#define DATA transform_vars_x_hat_generic_data_t
#define FN transform_vars_x_hat_generic_evaluate
#define BUF x
#define VERS ((f_lunacek_bi_rastrigin_versatile_data_t *)problem->versatile_data)
#define EXTRA(d) (d)->sign_vector = mk_vec(n); { f_lunacek_bi_rastrigin_versatile_data_t *vd = vf_new(sizeof(*vd)); vd->x_hat = mk_vec(n); p->versatile_data = vd; }
#define MORE_ASSIGNS __CPROVER_assigns(__CPROVER_object_whole(VERS->x_hat))
#define MORE __CPROVER_ensures(VF_SAME(VERS->x_hat[K_], vfg_xK))
#include "transform_vars_x_hat_generic.c"
#elif defined(V_ZHAT)
#define DATA transform_vars_z_hat_data_t
#define SET0 (K_ == 0)
#define FN transform_vars_z_hat_evaluate
#define BUF z
#define EXTRA(d) (d)->xopt = mk_vec(n);
#include "transform_vars_z_hat.c"
#elif defined(V_PERM)
#define DATA transform_vars_permutation_t
#define FN transform_vars_permutation_evaluate
#define BUF x
#define EXTRA(d) (d)->P = VF_ARR(size_t, n); VF_ASSUME((d)->P[vfg_K] < n);
#include "transform_vars_permutation.c"
#elif defined(V_IPERM)
#define DATA transform_vars_permutation_t
#define FN transform_vars_inverse_permutation_evaluate
#define BUF x
#define EXTRA(d) (d)->P = VF_ARR(size_t, n);
#include "transform_vars_permutation.c"
#elif defined(V_AFF)
#define DATA transform_vars_affine_data_t
#define FN transform_vars_affine_evaluate_function
#define CFN transform_vars_affine_evaluate_constraint
#define BUF x
#define EXTRA(d) (d)->b = mk_vec(n); (d)->M = mk_vec(n);
#include "transform_vars_affine.c"
#elif defined(V_BOX)
#define FN transform_vars_enforce_box_evaluate_function
#define EXTRA(d) p->smallest_values_of_interest = mk_vec(n); p->largest_values_of_interest = mk_vec(n);
#define SET0 1
#define BOXOUT(k) (x[k] < problem->smallest_values_of_interest[k] || x[k] > problem->largest_values_of_interest[k])
#define NOCALL ((vfg_wnan < N_ && VF_NAN(x[vfg_wnan]) && VF_NAN(y[vfg_J])) || (vfg_wbox < N_ && BOXOUT(vfg_wbox) && VF_PINF(y[vfg_J])))
#define MORE_ASSIGNS __CPROVER_assigns(vfg_wbox)
#define MORE __CPROVER_ensures(vfg_calls == 0 || !BOXOUT(K_))
#include "transform_vars_enforce_box.c"
#elif defined(V_DISC)
#define DATA transform_vars_discretize_data_t
#define SET0 (K_ >= problem->number_of_integer_variables)
#define FN transform_vars_discretize_evaluate_function
#define EXTRA(d) (d)->offset = mk_vec(n); p->smallest_values_of_interest = mk_vec(n); p->largest_values_of_interest = mk_vec(n); \
  q->smallest_values_of_interest = mk_vec(n); q->largest_values_of_interest = mk_vec(n); VF_ASSUME(p->number_of_integer_variables <= n); vfg_error_allowed = 1;
#include "transform_vars_discretize.c"
#endif
/* NOFORMULA: of the formula itself (transcendental functions, rounding) only REL is proved here, the values are compared by the native harness */
#ifdef NOFORMULA
#define IMAGE_OK REL(x[K_], vfg_xK)
#else
#ifdef V_DISC
#define IMAGE_OK (vfg_set == 0 || VF_SAME(vfg_xK, vfg_img))
#else
#define IMAGE_OK (vfg_set == 1 && VF_SAME(vfg_xK, vfg_img))
#endif
#endif
#ifndef SET0
#define SET0 0
#endif
#ifndef EXTRA
#define EXTRA(d)
#endif
#ifndef MORE
#define MORE
#endif
#ifndef MORE_ASSIGNS
#define MORE_ASSIGNS
#endif
#ifndef NOCALL
#define NOCALL (vfg_wnan < N_ && VF_NAN(x[vfg_wnan]) && VF_NAN(y[vfg_J]))
#endif
#ifdef DATA
#define DATA_ ((DATA *)TD_->data)
#else
#define DATA_ ((char *)0)
#endif
#ifdef BUF
#define BUF_ASSIGNS __CPROVER_assigns(__CPROVER_object_whole(DATA_->BUF))
#else
#define BUF_ASSIGNS
#endif

#ifndef CONSTRAINT
void ct_fn(coco_problem_t *problem, const double *x, double *y)
__CPROVER_requires(vfg_calls == 0 && K_ < N_ && N_ == vfg_n && vfg_J < vfg_m && VF_SAME(vfg_x0, x[0]) && vfg_set == SET0 && VF_SAME(vfg_img, x[K_]))
__CPROVER_assigns(vfg_calls, vfg_xK, vfg_yJ, vfg_yp, vfg_wnan, vfg_img, vfg_set, __CPROVER_object_whole(y))
BUF_ASSIGNS
MORE_ASSIGNS
__CPROVER_ensures(vfg_calls <= 1)
/* evaluated: at the image of x, and the values come back as they are */
__CPROVER_ensures(vfg_calls == 1 ==> (IMAGE_OK && vfg_yp == y && VF_SAME(y[vfg_J], vfg_yJ)))
/* not evaluated: only because of a NaN coordinate (or the box) */
__CPROVER_ensures(vfg_calls == 0 ==> NOCALL)
MORE
;
#else
void ct_cfn(coco_problem_t *problem, const double *x, double *y, int update_counter)
__CPROVER_requires(vfg_cc == 0 && K_ < N_ && N_ == vfg_n && vfg_J < vfg_nc && vfg_set == SET0)
__CPROVER_assigns(vfg_cc, vfg_xK, vfg_yJ, vfg_yp, vfg_upd, vfg_wnan, vfg_img, vfg_set, __CPROVER_object_whole(y))
BUF_ASSIGNS
__CPROVER_ensures(vfg_cc <= 1)
__CPROVER_ensures(vfg_cc == 1 ==> (IMAGE_OK && vfg_yp == y && VF_SAME(y[vfg_J], vfg_yJ) && (vfg_upd != 0) == (update_counter != 0)))
__CPROVER_ensures(vfg_cc == 0 ==> NOCALL)
;
#endif

static double *mk_vec(size_t n) { return VF_ARR(double, n); }
void h_v(void) {
  size_t n = nd_size(), m = nd_size(), c = nd_size();
  coco_problem_t *p = VF_OBJ(coco_problem_t), *q = VF_OBJ(coco_problem_t);
  coco_problem_transformed_data_t *t = VF_OBJ(coco_problem_transformed_data_t);
  double *x, *y;
  VF_ASSUME(n > 0 && n <= VF_NMAX && m > 0 && m <= VF_NMAX && c <= VF_NMAX);
  p->number_of_variables = q->number_of_variables = n; p->number_of_objectives = q->number_of_objectives = m; p->number_of_constraints = q->number_of_constraints = c;
  q->evaluate_constraint = stub_cons;
  p->data = t; t->inner_problem = q; vfg_inner = q; vfg_n = n; vfg_m = m; vfg_nc = c;
  vfg_K = nd_size(); vfg_J = nd_size(); VF_ASSUME(vfg_K < n); vfg_wbox = nd_size();
#ifdef DATA
  { DATA *d = VF_OBJ(DATA); t->data = d;
#ifdef BUF
  d->BUF = mk_vec(n);
#endif
  EXTRA(d) }
#else
  EXTRA(0)
#endif
  x = mk_vec(n); vfg_x0 = x[0]; vfg_img = x[vfg_K]; { coco_problem_t *problem = p; vfg_set = SET0; } vfg_calls = vfg_cc = 0;
#ifndef CONSTRAINT
  VF_ASSUME(vfg_J < m); y = mk_vec(m);
  FN(p, x, y);
  if (vfg_calls == 1) VF_REACH("evaluated");
  if (vfg_calls == 1 && vfg_K > 3) VF_REACH("evaluated, coordinate above 3");
#else
  VF_ASSUME(vfg_J < c); y = mk_vec(c);
  CFN(p, x, y, nd_int());
  if (vfg_cc == 1) VF_REACH("evaluated");
  if (vfg_cc == 1 && vfg_K > 3) VF_REACH("evaluated, coordinate above 3");
#endif
}
