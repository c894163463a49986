/* Contracts on composite problems: stacking (side by side) and linear constraints. */
#define NDEBUG
#include "vf.h"
#include "ghost.h"
#include "um.h"
#define fabs(v) __CPROVER_fabs(v)
static size_t vfg_n, vfg_m1, vfg_m2, vfg_c1, vfg_c2, vfg_e1, vfg_e2, vfg_calls;
static double vfg_v1, vfg_v2, vfg_yJ, vfg_img; static const double *vfg_x, *vfg_y; static int vfg_never;
static int vfg_u1, vfg_u2, vfg_set;
#include "coco_problem.c"
static coco_problem_t *vfg_p, *vfg_p1, *vfg_p2;
static double *vfg_b1, *vfg_b2;
static double *mk_vec(size_t n) { return VF_ARR(double, n); }
#define J1 vfg_J
#define J2 (vfg_J - vfg_m1)
/* one evaluation of a component; vfg_v1, vfg_v2: its value number J1 (J2) */
void ct_eval(coco_problem_t *problem, const double *x, double *y)
__CPROVER_requires(problem == vfg_p1 || problem == vfg_p2)
__CPROVER_requires(problem == vfg_p1 ==> (vfg_m1 > 0 && __CPROVER_w_ok(y, vfg_m1 * sizeof(double))))
__CPROVER_requires(problem == vfg_p2 ==> (vfg_m2 > 0 && __CPROVER_w_ok(y, vfg_m2 * sizeof(double))))
#ifdef ALLOC
__CPROVER_requires(problem == vfg_p1 ? (x == vfg_b2 && y == vfg_p->nadir_value) : (x == vfg_b1 && y == vfg_p->nadir_value + 1))
#else
__CPROVER_requires(x == vfg_x && (problem == vfg_p1 ? y == vfg_y : y == vfg_y + vfg_m1))
#endif
__CPROVER_assigns(problem == vfg_p1: __CPROVER_object_upto(y, vfg_m1 * sizeof(double)), vfg_e1, vfg_v1)
__CPROVER_assigns(problem == vfg_p2: __CPROVER_object_upto(y, vfg_m2 * sizeof(double)), vfg_e2, vfg_v2)
__CPROVER_ensures(problem == vfg_p1 ==> (vfg_e1 == VF_OLD(vfg_e1) + 1 && (vfg_J < vfg_m1 ==> VF_SAME(vfg_v1, y[J1]))))
__CPROVER_ensures(problem == vfg_p2 ==> (vfg_e2 == VF_OLD(vfg_e2) + 1 && (vfg_J >= vfg_m1 ==> VF_SAME(vfg_v2, y[J2]))))
;
void ct_cons(coco_problem_t *problem, const double *x, double *y, int update_counter)
__CPROVER_requires(problem == vfg_p1 || problem == vfg_p2)
__CPROVER_requires(problem == vfg_p1 ==> (vfg_m1 > 0 && y == vfg_y && __CPROVER_w_ok(y, vfg_m1 * sizeof(double))))
__CPROVER_requires(problem == vfg_p2 ==> (vfg_m2 > 0 && y == vfg_y + vfg_m1 && __CPROVER_w_ok(y, vfg_m2 * sizeof(double))))
__CPROVER_requires(x == vfg_x && update_counter == vfg_set)
__CPROVER_assigns(problem == vfg_p1: __CPROVER_object_upto(y, vfg_m1 * sizeof(double)), vfg_e1, vfg_v1)
__CPROVER_assigns(problem == vfg_p2: __CPROVER_object_upto(y, vfg_m2 * sizeof(double)), vfg_e2, vfg_v2)
__CPROVER_ensures(problem == vfg_p1 ==> (vfg_e1 == VF_OLD(vfg_e1) + 1 && (vfg_J < vfg_m1 ==> VF_SAME(vfg_v1, y[J1]))))
__CPROVER_ensures(problem == vfg_p2 ==> (vfg_e2 == VF_OLD(vfg_e2) + 1 && (vfg_J >= vfg_m1 ==> VF_SAME(vfg_v2, y[J2]))))
;
int ct_feas(coco_problem_t *problem, const double *x, double *constraint_values)
__CPROVER_requires(problem == vfg_p && x == vfg_x && constraint_values != NULL && __CPROVER_w_ok(constraint_values, problem->number_of_constraints * sizeof(double)))
__CPROVER_assigns(__CPROVER_object_whole(constraint_values))
;
/* first component's values first, then the second's; each component once, at the point handed in */
#define SIDE_BY_SIDE \
__CPROVER_requires(vfg_e1 == 0 && vfg_e2 == 0 && problem == vfg_p && x == vfg_x && y == vfg_y && vfg_J < vfg_m1 + vfg_m2 && __CPROVER_w_ok(y, (vfg_m1 + vfg_m2) * sizeof(double))) \
__CPROVER_assigns(vfg_e1, vfg_e2, vfg_v1, vfg_v2, __CPROVER_object_whole(y)) \
__CPROVER_ensures(vfg_e1 == (vfg_m1 > 0) && vfg_e2 == (vfg_m2 > 0)) \
__CPROVER_ensures(VF_SAME(y[vfg_J], vfg_J < vfg_m1 ? vfg_v1 : vfg_v2))
void ct_stacked_eval(coco_problem_t *problem, const double *x, double *y)
SIDE_BY_SIDE
;
void ct_stacked_cons(coco_problem_t *problem, const double *x, double *y, int update_counter)
__CPROVER_requires(update_counter == vfg_set)
SIDE_BY_SIDE
;
#ifdef ALLOC
static coco_problem_t *st_alloc(const size_t nv, const size_t no, const size_t nc) {
  VF_ASSERT(nv == vfg_n && no == vfg_m1 + vfg_m2 && nc == vfg_c1 + vfg_c2, "sizes of the stacked problem");
  return vfg_p;
}
static char vfg_str;
static char *st_concat(const char *s1, const char *s2) { (void)s1; (void)s2; return VF_ARR(char, 1); }
double *ct_dupvec(const double *src, const size_t number_of_elements)
__CPROVER_requires(number_of_elements == vfg_n && src == vfg_p2->initial_solution)
__CPROVER_assigns()
__CPROVER_ensures(__CPROVER_is_fresh(VF_RET, vfg_n * sizeof(double)) && VF_SAME(VF_RET[vfg_K], src[vfg_K]))
;
coco_problem_t *ct_stacked_allocate(coco_problem_t *problem1, coco_problem_t *problem2, const double *smallest_values_of_interest, const double *largest_values_of_interest)
__CPROVER_requires(vfg_e1 == 0 && vfg_e2 == 0 && problem1 == vfg_p1 && problem2 == vfg_p2 && vfg_J < 2 && vfg_K < vfg_n && vfg_p->initial_solution == NULL)
__CPROVER_assigns(vfg_e1, vfg_e2, vfg_v1, vfg_v2, __CPROVER_object_whole(vfg_p), __CPROVER_object_whole(vfg_p->smallest_values_of_interest), __CPROVER_object_whole(vfg_p->largest_values_of_interest), __CPROVER_object_whole(vfg_p->best_value))
__CPROVER_assigns(vfg_c1 + vfg_c2 == 0: __CPROVER_object_whole(vfg_p->nadir_value))
__CPROVER_ensures(VF_RET == vfg_p && VF_SAME(VF_RET->smallest_values_of_interest[vfg_K], smallest_values_of_interest[vfg_K]) && VF_SAME(VF_RET->largest_values_of_interest[vfg_K], largest_values_of_interest[vfg_K]))
__CPROVER_ensures(VF_RET->evaluate_function == coco_problem_stacked_evaluate_function && VF_RET->problem_free_function == coco_problem_stacked_free)
__CPROVER_ensures(vfg_c1 + vfg_c2 > 0 ==> VF_RET->evaluate_constraint == coco_problem_stacked_evaluate_constraint)
__CPROVER_ensures(((coco_problem_stacked_data_t *)VF_RET->data)->problem1 == problem1 && ((coco_problem_stacked_data_t *)VF_RET->data)->problem2 == problem2)
__CPROVER_ensures(VF_RET->number_of_integer_variables == problem1->number_of_integer_variables)
/* two objectives: ideal point from the two optima, nadir point: each component once at the other's optimum */
__CPROVER_ensures(vfg_c1 + vfg_c2 == 0 ==> (VF_RET->best_value[0] == problem1->best_value[0] && VF_RET->best_value[1] == problem2->best_value[0] && vfg_e1 == 1 && vfg_e2 == 1 && VF_SAME(VF_RET->nadir_value[vfg_J], vfg_J == 0 ? vfg_v1 : vfg_v2)))
/* constrained: the initial solution of the constraints */
__CPROVER_ensures(vfg_c2 > 0 && problem2->initial_solution != NULL ==> (VF_RET->initial_solution != NULL && VF_SAME(VF_RET->initial_solution[vfg_K], problem2->initial_solution[vfg_K])))
;
#endif
#ifdef LIN
#define CNT(v) ((v) > 1e-11 || (v) < 0)
#include "coco_random.c"
#include "c_linear.c"
#define LD ((linear_constraint_data_t *)((coco_problem_transformed_data_t *)self->data)->data)
/* what the sum counts: everything but [0, 1e-11] */
void ct_sum(coco_problem_t *self, const double *x, double *y, int update_counter)
__CPROVER_requires(vfg_set == 0 && vfg_yJ == 0)
__CPROVER_assigns(y[0], vfg_set, vfg_yJ)
__CPROVER_ensures(VF_SAME(y[0], vfg_yJ) && vfg_set == (int)(self->number_of_variables > 0))
;
static void stub_inner(coco_problem_t *problem, const double *x, double *y, int update_counter) {
  VF_ASSERT(problem == vfg_p1 && x == vfg_x && y == vfg_y && update_counter == 1 - vfg_u2, "the sum of the variables at the image of the point");
  VF_ASSERT(VF_SAME(x[vfg_K], vfg_img), "coordinate K: gradient times (x - shift along the normalised gradient)");
  vfg_calls++; y[0] = nd_double(); vfg_v1 = y[0];
}
void ct_single(coco_problem_t *self, const double *x, double *y, int update_counter)
__CPROVER_requires(vfg_calls == 0 && update_counter == 1 - vfg_u2)
__CPROVER_assigns(vfg_calls, vfg_v1, vfg_img, y[0], __CPROVER_object_whole(LD->x))
__CPROVER_ensures(vfg_calls == 1 && VF_SAME(y[0], vfg_v1))
;
static void stub_linear(coco_problem_t *problem, const double *x, double *y, int update_counter) {
  VF_ASSERT(problem == vfg_p1 && x == vfg_x && update_counter == 0, "the constraint at the feasible direction, not counted");
  vfg_calls++; y[0] = nd_double(); vfg_v1 = y[0];
}
double *ct_dupvec2(const double *src, const size_t number_of_elements)
__CPROVER_requires(number_of_elements == vfg_n && src == vfg_x)
__CPROVER_assigns()
__CPROVER_ensures(__CPROVER_is_fresh(VF_RET, vfg_n * sizeof(double)) && VF_SAME(VF_RET[vfg_K], src[vfg_K]))
;
/* the constraint is mirrored iff the direction violates it; the direction is the initial solution */
coco_problem_t *ct_guarantee(coco_problem_t *problem, const double *feasible_direction)
__CPROVER_requires(vfg_calls == 0 && vfg_K < vfg_n && vfg_set == 0)
__CPROVER_assigns(vfg_calls, vfg_v1, problem->initial_solution, __CPROVER_object_whole(((linear_constraint_data_t *)((coco_problem_transformed_data_t *)problem->data)->data)->gradient))
__CPROVER_ensures(VF_RET == problem && vfg_calls == 1 && VF_SAME(problem->initial_solution[vfg_K], feasible_direction[vfg_K]))
__CPROVER_ensures(VF_SAME(((linear_constraint_data_t *)((coco_problem_transformed_data_t *)problem->data)->data)->gradient[vfg_K], vfg_v1 > 0 ? -vfg_yJ : vfg_yJ))
;
#endif
void h(void) {
  size_t n = nd_size(); coco_problem_t *p = VF_OBJ(coco_problem_t), *p1 = VF_OBJ(coco_problem_t), *p2 = VF_OBJ(coco_problem_t); double *x, *y;
  VF_ASSUME(n > 0 && n <= VF_NMAX); vfg_n = n; vfg_K = nd_size(); vfg_J = nd_size(); VF_ASSUME(vfg_K < n);
  vfg_m1 = nd_size(); vfg_m2 = nd_size(); vfg_c1 = nd_size(); vfg_c2 = nd_size(); VF_ASSUME(vfg_m1 <= VF_NMAX && vfg_m2 <= VF_NMAX && vfg_c1 <= VF_NMAX && vfg_c2 <= VF_NMAX);
  vfg_p = p; vfg_p1 = p1; vfg_p2 = p2; vfg_e1 = vfg_e2 = vfg_calls = 0; vfg_set = 0; vfg_yJ = 0; x = mk_vec(n); vfg_x = x;
#if defined(S_EVAL) || defined(S_CONS)
  { coco_problem_stacked_data_t *d = VF_OBJ(coco_problem_stacked_data_t); d->problem1 = p1; d->problem2 = p2; p->data = d; p->best_value = mk_vec(1);
    VF_ASSUME(vfg_m1 + vfg_m2 > 0 && vfg_J < vfg_m1 + vfg_m2); y = mk_vec(vfg_m1 + vfg_m2); vfg_y = y; p->number_of_variables = p1->number_of_variables = p2->number_of_variables = n;
#ifdef S_EVAL
    p1->number_of_objectives = vfg_m1; p2->number_of_objectives = vfg_m2; p->number_of_objectives = vfg_m1 + vfg_m2; p->number_of_constraints = vfg_c1 + vfg_c2;
    coco_problem_stacked_evaluate_function(p, x, y);
#else
    p1->number_of_constraints = vfg_m1; p2->number_of_constraints = vfg_m2; p->number_of_constraints = vfg_m1 + vfg_m2; vfg_set = nd_int();
    coco_problem_stacked_evaluate_constraint(p, x, y, vfg_set);
#endif
    if (vfg_e1 && vfg_e2 && vfg_J > vfg_m1) VF_REACH("both"); if (!vfg_e2) VF_REACH("first only"); if (!vfg_e1) VF_REACH("second only");
  }
#elif defined(ALLOC)
  { coco_problem_t *r; double *lo = mk_vec(n), *hi = mk_vec(n);
    VF_ASSUME(vfg_J < 2); VF_ASSUME(vfg_c1 + vfg_c2 > 0 ? vfg_m1 + vfg_m2 == 1 : (vfg_m1 == 1 && vfg_m2 == 1));
    p1->number_of_variables = p2->number_of_variables = p->number_of_variables = n; p1->number_of_objectives = vfg_m1; p2->number_of_objectives = vfg_m2; p1->number_of_constraints = vfg_c1; p2->number_of_constraints = vfg_c2;
    p->number_of_objectives = vfg_m1 + vfg_m2; p->number_of_constraints = vfg_c1 + vfg_c2; p->initial_solution = NULL; p->smallest_values_of_interest = mk_vec(n); p->largest_values_of_interest = mk_vec(n); p->best_value = mk_vec(2); p->nadir_value = mk_vec(2);
    p1->best_value = mk_vec(1); p2->best_value = mk_vec(1); vfg_b1 = p1->best_parameter = mk_vec(n); vfg_b2 = p2->best_parameter = mk_vec(n); p2->initial_solution = nd_int() ? mk_vec(n) : NULL;
    VF_ASSUME(!VF_NAN(p1->best_value[0]) && !VF_NAN(p2->best_value[0]));
    p1->problem_id = VF_ARR(char, 4); p2->problem_id = VF_ARR(char, 4); p1->problem_name = VF_ARR(char, 4); p2->problem_name = VF_ARR(char, 4);
    vfg_never = 0; if (vfg_never) { st_alloc(n, n, n); st_concat("", ""); }
    r = coco_problem_stacked_allocate(p1, p2, lo, hi);
    if (vfg_c1 + vfg_c2 > 0 && r->initial_solution) VF_REACH("constrained"); if (vfg_e1) VF_REACH("two objectives");
  }
#elif defined(LIN)
  { coco_problem_transformed_data_t *t = VF_OBJ(coco_problem_transformed_data_t); linear_constraint_data_t *d = VF_OBJ(linear_constraint_data_t);
    y = mk_vec(1); vfg_y = y; vfg_u2 = nd_int(); VF_ASSUME(vfg_u2 == 0 || vfg_u2 == 1); p->number_of_variables = n; p->number_of_constraints = 1; p->data = t; t->data = d; t->inner_problem = p1; d->gradient = mk_vec(n); d->x = mk_vec(n);
#if defined(S_SUM)
    c_sum_variables_evaluate(p, x, y, 1 - vfg_u2); if (y[0] > 3) VF_REACH("summed");
#elif defined(S_SINGLE)
    p1->evaluate_constraint = stub_inner; vfg_x = d->x; c_linear_single_evaluate(p, x, y, 1 - vfg_u2); if (y[0] > 3) VF_REACH("evaluated");
#elif defined(S_GUAR)
    p->evaluate_constraint = stub_linear; vfg_p1 = p; vfg_yJ = d->gradient[vfg_K]; c_guarantee_feasible_point(p, x); if (vfg_v1 > 0) VF_REACH("mirrored"); if (vfg_v1 < 0) VF_REACH("kept");
#endif
  }
#endif
}
