/* Contracts on what a problem hands out about itself: its initial solution and its best parameter. */
#define NDEBUG
#include "vf.h"
#include "ghost.h"
#include "um.h"
#define fabs(v) __CPROVER_fabs(v)
/* the centre of the region of interest */
#define CTR(p, k) ((p)->smallest_values_of_interest[k] + 0.5 * ((p)->largest_values_of_interest[k] - (p)->smallest_values_of_interest[k]))
#define RND(v) __CPROVER_uninterpreted_pow(v, -7.0)
static double vfg_img, vfg_r; /* the centre in coordinate vfg_K, and rounded: computed by ghost statements from the problem */
#include "coco_problem.c"
static double *mk_vec(size_t n) { return VF_ARR(double, n); }
double ct_round(const double number)
__CPROVER_assigns()
__CPROVER_ensures(VF_SAME(VF_RET, __CPROVER_uninterpreted_pow(number, -7.0)))
;
#if defined(G_INIT)
void ct_init(const coco_problem_t *problem, double *initial_solution)
__CPROVER_requires(vfg_K < problem->number_of_variables && problem->number_of_integer_variables <= problem->number_of_variables)
__CPROVER_assigns(__CPROVER_object_whole(initial_solution), vfg_img, vfg_r)
__CPROVER_ensures(problem->initial_solution != NULL ==> VF_SAME(initial_solution[vfg_K], problem->initial_solution[vfg_K]))
__CPROVER_ensures((problem->initial_solution == NULL && vfg_K >= problem->number_of_integer_variables) ==> VF_SAME(initial_solution[vfg_K], vfg_img))
__CPROVER_ensures((problem->initial_solution == NULL && vfg_K < problem->number_of_integer_variables) ==> VF_SAME(initial_solution[vfg_K], vfg_r))
;
#else
int ct_best(coco_problem_t *problem, double *best_parameter)
__CPROVER_requires(vfg_K < problem->number_of_variables)
__CPROVER_assigns(problem->is_tainted, __CPROVER_object_whole(best_parameter))
__CPROVER_ensures((VF_RET != 0) == (problem->best_parameter != NULL && problem->number_of_objectives == 1))
__CPROVER_ensures(VF_RET != 0 ==> (problem->is_tainted != 0 && VF_SAME(best_parameter[vfg_K], problem->best_parameter[vfg_K])))
__CPROVER_ensures(VF_RET == 0 ==> (problem->is_tainted == VF_OLD(problem->is_tainted) && VF_SAME(best_parameter[vfg_K], VF_OLD(best_parameter[vfg_K]))))
;
#endif
void h_get(void) {
  size_t n = nd_size(); coco_problem_t *p = VF_OBJ(coco_problem_t); double *o;
  VF_ASSUME(n > 0 && n <= VF_NMAX); p->number_of_variables = n; VF_ASSUME(p->number_of_integer_variables <= n);
  p->smallest_values_of_interest = mk_vec(n); p->largest_values_of_interest = mk_vec(n);
  p->initial_solution = nd_int() ? mk_vec(n) : NULL; p->best_parameter = nd_int() ? mk_vec(n) : NULL;
  o = mk_vec(n); vfg_K = nd_size(); VF_ASSUME(vfg_K < n);
#ifdef G_INIT
  coco_problem_get_initial_solution(p, o);
  if (p->initial_solution) VF_REACH("own initial solution"); else if (vfg_K < p->number_of_integer_variables) VF_REACH("integer coordinate of the centre"); else VF_REACH("coordinate of the centre");
#else
  if (coco_problem_get_best_parameter(p, o)) VF_REACH("known"); else VF_REACH("unknown");
#endif
}
