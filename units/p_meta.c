/* Contracts on the bookkeeping of the known optimum and the metadata: coco_problem_duplicate and the constructors of transformations. */
#define NDEBUG
#include "vf.h"
#include "ghost.h"
#include "um.h"
#define fabs(v) __CPROVER_fabs(v)
static size_t vfg_n, vfg_m, vfg_wz;
static double vfg_img, vfg_img2; /* documented images, computed by ghost statements */
#include "coco_problem.c"
#include "c_util.h"
static coco_problem_t *vfg_inner, *vfg_new;
static const char *vfg_s0, *vfg_s1, *vfg_s2;
static void *vfg_data;
static int vfg_nz;
static double vfg_bp, vfg_bv, vfg_in, vfg_u;
static long vfg_seed;
static double *mk_vec(size_t n) { return VF_ARR(double, n); }

void ct_set_nan(double *y, const size_t dim)
__CPROVER_requires(dim <= VF_NMAX && __CPROVER_w_ok(y, dim * sizeof(double)))
__CPROVER_assigns(__CPROVER_object_upto(y, dim * sizeof(double)))
__CPROVER_ensures(vfg_K < dim ==> VF_NAN(y[vfg_K]))
;
char *ct_strdup(const char *string)
__CPROVER_assigns()
__CPROVER_ensures(VF_RET == string)
;
/* coco_problem_transformed_allocate: a copy of the wrapped problem (see the contract on coco_problem_duplicate) that holds the data */
static coco_problem_t *st_talloc(coco_problem_t *inner_problem, void *user_data, coco_data_free_function_t data_free_function, const char *name_prefix) {
  (void)data_free_function; (void)name_prefix;
  VF_ASSERT(inner_problem == vfg_inner, "the transformation wraps the problem handed in");
  vfg_data = user_data;
  return vfg_new;
}
double *ct_dupvec(const double *src, const size_t number_of_elements)
__CPROVER_requires(number_of_elements == vfg_n && __CPROVER_r_ok(src, number_of_elements * sizeof(double)))
__CPROVER_assigns()
__CPROVER_ensures(__CPROVER_is_fresh(VF_RET, number_of_elements * sizeof(double)))
__CPROVER_ensures(VF_SAME(VF_RET[vfg_K], src[vfg_K]))
;
int ct_not_zero(const coco_problem_t *problem)
__CPROVER_requires(problem == vfg_inner || problem == vfg_new)
__CPROVER_assigns()
__CPROVER_ensures((VF_RET != 0) == (vfg_nz != 0))
;
void ct_unif(double *r, size_t N, long inseed)
__CPROVER_requires(N == vfg_n && __CPROVER_w_ok(r, N * sizeof(double)))
__CPROVER_assigns(__CPROVER_object_upto(r, N * sizeof(double)), vfg_u, vfg_seed)
__CPROVER_ensures(vfg_seed == inseed && vfg_u == r[vfg_K])
;
#define KEPT(e) VF_SAME(e, VF_OLD(e))
#if defined(C_DUP)
coco_problem_t *ct_dup(const coco_problem_t *other)
__CPROVER_assigns()
__CPROVER_ensures(VF_RET->number_of_variables == other->number_of_variables && VF_RET->number_of_objectives == other->number_of_objectives && VF_RET->number_of_constraints == other->number_of_constraints && VF_RET->number_of_integer_variables == other->number_of_integer_variables)
__CPROVER_ensures(VF_SAME(VF_RET->smallest_values_of_interest[vfg_K], other->smallest_values_of_interest[vfg_K]) && VF_SAME(VF_RET->largest_values_of_interest[vfg_K], other->largest_values_of_interest[vfg_K]))
__CPROVER_ensures(other->number_of_objectives == 1 ==> VF_SAME(VF_RET->best_parameter[vfg_K], other->best_parameter[vfg_K]))
__CPROVER_ensures(other->initial_solution != NULL ? (VF_RET->initial_solution != other->initial_solution && VF_SAME(VF_RET->initial_solution[vfg_K], other->initial_solution[vfg_K])) : VF_RET->initial_solution == NULL)
__CPROVER_ensures(VF_SAME(VF_RET->best_value[vfg_J], other->best_value[vfg_J]))
__CPROVER_ensures(other->number_of_objectives > 1 ==> (VF_RET->nadir_value != other->nadir_value && VF_SAME(VF_RET->nadir_value[vfg_J], other->nadir_value[vfg_J])))
__CPROVER_ensures(VF_RET->best_value != other->best_value && VF_RET->smallest_values_of_interest != other->smallest_values_of_interest && VF_RET->largest_values_of_interest != other->largest_values_of_interest)
__CPROVER_ensures(VF_RET->problem_name == vfg_s0 && VF_RET->problem_id == vfg_s1 && VF_RET->problem_type == vfg_s2)
__CPROVER_ensures(VF_RET->evaluations == other->evaluations && VF_RET->evaluations_constraints == other->evaluations_constraints && VF_SAME(VF_RET->final_target_delta[0], other->final_target_delta[0]) && VF_SAME(VF_RET->best_observed_fvalue[0], other->best_observed_fvalue[0]) && VF_RET->best_observed_evaluation[0] == other->best_observed_evaluation[0])
__CPROVER_ensures(VF_RET->suite == other->suite && VF_RET->suite_dep_index == other->suite_dep_index && VF_RET->suite_dep_function == other->suite_dep_function && VF_RET->suite_dep_instance == other->suite_dep_instance && VF_RET->is_opt_known == other->is_opt_known && VF_RET->is_tainted == other->is_tainted && VF_RET->versatile_data == other->versatile_data)
__CPROVER_ensures(VF_RET->evaluate_function == other->evaluate_function && VF_RET->evaluate_constraint == other->evaluate_constraint && VF_RET->problem_free_function == other->problem_free_function && VF_RET->data == NULL)
;
#elif defined(C_NZ)
int ct_nz(const coco_problem_t *problem)
__CPROVER_requires(problem == vfg_inner)
__CPROVER_assigns(vfg_wnan, vfg_wz)
__CPROVER_ensures(VF_RET == 0 ==> (problem->best_parameter[vfg_K] < 1e-8 && problem->best_parameter[vfg_K] > -1e-8))
__CPROVER_ensures(VF_RET != 0 ==> ((vfg_wnan < vfg_n && VF_NAN(problem->best_parameter[vfg_wnan])) || (vfg_wz < vfg_n && problem->best_parameter[vfg_wz] != 0)))
;
#elif defined(C_SHIFT)
#include "transform_vars_shift.c"
coco_problem_t *ct_c(coco_problem_t *inner_problem, const double *offset, const int only)
__CPROVER_requires(inner_problem == vfg_inner)
__CPROVER_assigns(vfg_data, vfg_img, vfg_img2, __CPROVER_object_whole(vfg_new), __CPROVER_object_whole(vfg_new->best_parameter))
__CPROVER_assigns(vfg_new->initial_solution != NULL : __CPROVER_object_whole(vfg_new->initial_solution))
__CPROVER_ensures(VF_RET == vfg_new && VF_SAME(VF_RET->best_parameter[vfg_K], vfg_img))
__CPROVER_ensures(VF_RET->initial_solution == NULL || VF_SAME(VF_RET->initial_solution[vfg_K], vfg_img2))
__CPROVER_ensures(((transform_vars_shift_data_t *)vfg_data)->offset != offset && VF_SAME(((transform_vars_shift_data_t *)vfg_data)->offset[vfg_K], offset[vfg_K]))
__CPROVER_ensures((inner_problem->number_of_objectives > 0 && only == 0) ==> VF_RET->evaluate_function == transform_vars_shift_evaluate_function)
__CPROVER_ensures(only != 0 ==> VF_RET->evaluate_function == VF_OLD(vfg_new->evaluate_function))
__CPROVER_ensures(inner_problem->number_of_constraints > 0 ==> VF_RET->evaluate_constraint == transform_vars_shift_evaluate_constraint)
__CPROVER_ensures(VF_RET->best_value == VF_OLD(vfg_new->best_value) && VF_RET->number_of_variables == VF_OLD(vfg_new->number_of_variables) && VF_RET->best_parameter == VF_OLD(vfg_new->best_parameter))
;
#define CALL transform_vars_shift(p, mk_vec(n), nd_int())
#elif defined(C_SCALE)
#include "transform_vars_scale.c"
coco_problem_t *ct_c(coco_problem_t *inner_problem, const double factor)
__CPROVER_requires(inner_problem == vfg_inner)
__CPROVER_assigns(vfg_data, vfg_img, vfg_img2, __CPROVER_object_whole(vfg_new), __CPROVER_object_whole(vfg_new->best_parameter))
__CPROVER_ensures(VF_RET == vfg_new && VF_RET->evaluate_function == transform_vars_scale_evaluate && ((transform_vars_scale_data_t *)vfg_data)->factor == factor)
__CPROVER_ensures(factor == 1.0 ==> VF_SAME(VF_RET->best_parameter[vfg_K], vfg_bp))
__CPROVER_ensures(VF_RET->best_value == VF_OLD(vfg_new->best_value) && VF_RET->best_parameter == VF_OLD(vfg_new->best_parameter))
;
#define CALL transform_vars_scale(p, ({ double f_ = nd_double(); VF_ASSUME(VF_FIN(f_)); f_; }))
#elif defined(C_OSHIFT)
#include "transform_obj_shift.c"
coco_problem_t *ct_c(coco_problem_t *inner_problem, const double offset)
__CPROVER_requires(inner_problem == vfg_inner)
__CPROVER_assigns(vfg_data, vfg_img, vfg_img2, __CPROVER_object_whole(vfg_new), __CPROVER_object_whole(vfg_new->best_value))
__CPROVER_ensures(VF_RET == vfg_new && VF_SAME(VF_RET->best_value[vfg_J], vfg_img) && VF_SAME(((transform_obj_shift_data_t *)vfg_data)->offset, offset))
__CPROVER_ensures(inner_problem->number_of_objectives > 0 ==> VF_RET->evaluate_function == transform_obj_shift_evaluate_function)
__CPROVER_ensures(VF_RET->best_value == VF_OLD(vfg_new->best_value) && VF_RET->best_parameter == VF_OLD(vfg_new->best_parameter))
;
#define CALL transform_obj_shift(p, nd_double())
#elif defined(C_OSCALE)
#include "transform_obj_scale.c"
coco_problem_t *ct_c(coco_problem_t *inner_problem, const double factor)
__CPROVER_requires(inner_problem == vfg_inner)
__CPROVER_assigns(vfg_data, vfg_img, vfg_img2, __CPROVER_object_whole(vfg_new), __CPROVER_object_whole(vfg_new->best_value))
__CPROVER_ensures(VF_RET == vfg_new && VF_SAME(((transform_obj_scale_data_t *)vfg_data)->factor, factor))
__CPROVER_ensures(VF_SAME(VF_RET->best_value[vfg_J], vfg_img))
__CPROVER_ensures(inner_problem->number_of_objectives > 0 ==> VF_RET->evaluate_function == transform_obj_scale_evaluate_function)
__CPROVER_ensures(VF_RET->best_value == VF_OLD(vfg_new->best_value) && VF_RET->best_parameter == VF_OLD(vfg_new->best_parameter))
;
#define CALL transform_obj_scale(p, nd_double())
#elif defined(C_BRS) || defined(C_COND) || defined(C_ASY)
/* a transformation that cannot update the best parameter: it is kept if it is zero and marked unknown otherwise */
#ifdef C_BRS
#include "transform_vars_brs.c"
#define CTOR transform_vars_brs
#define CFN transform_vars_brs_evaluate
coco_problem_t *ct_c(coco_problem_t *inner_problem)
#define CALL transform_vars_brs(p)
#elif defined(C_COND)
#include "transform_vars_conditioning.c"
#define CFN transform_vars_conditioning_evaluate
coco_problem_t *ct_c(coco_problem_t *inner_problem, const double alpha)
#define CALL transform_vars_conditioning(p, nd_double())
#else
#include "transform_vars_asymmetric.c"
#define CFN transform_vars_asymmetric_evaluate_function
coco_problem_t *ct_c(coco_problem_t *inner_problem, const double beta)
#define CALL transform_vars_asymmetric(p, nd_double())
#endif
__CPROVER_requires(inner_problem == vfg_inner)
__CPROVER_assigns(vfg_data, vfg_img, vfg_img2, __CPROVER_object_whole(vfg_new), __CPROVER_object_whole(vfg_new->best_parameter))
__CPROVER_ensures(VF_RET == vfg_new && VF_RET->best_parameter == VF_OLD(vfg_new->best_parameter) && VF_RET->best_value == VF_OLD(vfg_new->best_value))
__CPROVER_ensures(inner_problem->number_of_objectives > 0 ==> VF_RET->evaluate_function == CFN)
__CPROVER_ensures((vfg_nz && inner_problem->number_of_objectives > 0) ? VF_NAN(VF_RET->best_parameter[vfg_K]) : VF_SAME(VF_RET->best_parameter[vfg_K], vfg_bp))
;
#elif defined(C_XHAT)
#include "transform_vars_x_hat.c"
coco_problem_t *ct_c(coco_problem_t *inner_problem, const long seed)
__CPROVER_requires(inner_problem == vfg_inner)
__CPROVER_assigns(vfg_data, vfg_img, vfg_img2, vfg_u, vfg_seed, __CPROVER_object_whole(vfg_new), __CPROVER_object_whole(vfg_new->best_parameter))
__CPROVER_ensures(VF_RET == vfg_new && VF_RET->evaluate_function == transform_vars_x_hat_evaluate && ((transform_vars_x_hat_data_t *)vfg_data)->seed == seed)
__CPROVER_ensures(vfg_nz ? (vfg_seed == seed && VF_SAME(VF_RET->best_parameter[vfg_K], vfg_u < 0.5 ? -vfg_bp : vfg_bp)) : VF_SAME(VF_RET->best_parameter[vfg_K], vfg_bp))
;
#define CALL transform_vars_x_hat(p, nd_long())
#endif

static coco_problem_t *mk(size_t n, size_t m, size_t c, int ini) {
  coco_problem_t *p = VF_OBJ(coco_problem_t);
  p->number_of_variables = n; p->number_of_objectives = m; p->number_of_constraints = c;
  p->smallest_values_of_interest = mk_vec(n); p->largest_values_of_interest = mk_vec(n);
  p->best_parameter = m == 1 ? mk_vec(n) : NULL; p->best_value = mk_vec(m); p->nadir_value = m > 1 ? mk_vec(m) : NULL;
  p->initial_solution = ini ? mk_vec(n) : NULL;
  p->problem_name = VF_OBJ(char); p->problem_id = VF_OBJ(char); p->problem_type = VF_OBJ(char);
  return p;
}
void h_m(void) {
  size_t n = nd_size(), m = nd_size(), c = nd_size(); int ini = nd_int();
  coco_problem_t *p, *r;
  VF_ASSUME(n > 0 && n <= VF_NMAX && m > 0 && m <= VF_NMAX && c <= VF_NMAX);
#ifndef C_DUP
  VF_ASSUME(m == 1);
#endif
  p = mk(n, m, c, ini);
  vfg_inner = p; vfg_n = n; vfg_m = m; vfg_K = nd_size(); vfg_J = nd_size(); vfg_nz = nd_int(); vfg_wz = nd_size(); vfg_wnan = n;
  VF_ASSUME(vfg_K < n && vfg_J < m);
#if defined(C_DUP)
  vfg_s0 = p->problem_name; vfg_s1 = p->problem_id; vfg_s2 = p->problem_type;
  r = coco_problem_duplicate(p);
  if (m > 1) VF_REACH("multi-objective");
  if (m == 1 && vfg_K > 3 && r->initial_solution) VF_REACH("initial solution");
#elif defined(C_NZ)
  if (coco_problem_best_parameter_not_zero(p)) VF_REACH("not zero"); else VF_REACH("zero");
#else
  vfg_new = mk(n, m, c, ini);
  vfg_bp = vfg_new->best_parameter[vfg_K]; vfg_bv = vfg_new->best_value[vfg_J]; if (ini) vfg_in = vfg_new->initial_solution[vfg_K];
  r = CALL; if (nd_int()) (void)st_talloc(p, NULL, NULL, NULL);
  if (vfg_K > 3) VF_REACH("constructed");
  if (ini) VF_REACH("with initial solution");
#endif
}
