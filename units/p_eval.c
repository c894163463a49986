/* Contracts on the evaluation entry points of coco_problem.c */
#include "vf.h"
#include "ghost.h"
#include "coco_problem.c"
#include "c_util.h"
#ifndef VF_P
#define VF_P 0
#endif

/* ghost record of what the (arbitrary) inner objective / constraint function was called with and returned */
static size_t vfg_fcalls, vfg_ccalls;
static const double *vfg_fx, *vfg_cx;
static double *vfg_fy, *vfg_cy;
static coco_problem_t *vfg_fp, *vfg_cp;
static double vfg_fyJ, vfg_fy0, vfg_cyK;
static int vfg_cupd;

/* an arbitrary objective function: writes arbitrary values to y and nothing else */
static void stub_eval(coco_problem_t *problem, const double *x, double *y) {
  vfg_fcalls++; vfg_fx = x; vfg_fy = y; vfg_fp = problem;
  __CPROVER_havoc_object(y);
  vfg_fy0 = y[0]; vfg_fyJ = y[vfg_J];
}
static void stub_cons(coco_problem_t *problem, const double *x, double *y, int update_counter) {
  vfg_ccalls++; vfg_cx = x; vfg_cy = y; vfg_cp = problem; vfg_cupd = update_counter;
  __CPROVER_havoc_object(y);
  if (vfg_J < problem->number_of_constraints) vfg_cyK = y[vfg_J];
}

#define INF_SEEN(p, x) (vfg_winf < (p)->number_of_variables && VF_INF((x)[vfg_winf]))

/* --- coco_evaluate_function --- */
void ct_evaluate_function(coco_problem_t *problem, const double *x, double *y)
__CPROVER_requires(problem != NULL && vfg_fcalls == 0 && vfg_ccalls == 0)
__CPROVER_requires(vfg_K < problem->number_of_variables && problem->number_of_variables <= VF_NMAX)
__CPROVER_requires(vfg_J < problem->number_of_objectives && problem->number_of_objectives <= VF_NMAX)
__CPROVER_assigns(problem->evaluations, problem->best_observed_fvalue[0], problem->best_observed_evaluation[0])
__CPROVER_assigns(__CPROVER_object_whole(y))
__CPROVER_assigns(vfg_fcalls, vfg_fx, vfg_fy, vfg_fp, vfg_fyJ, vfg_fy0, vfg_ccalls, vfg_cx, vfg_cy, vfg_cp, vfg_cyK, vfg_cupd)
__CPROVER_assigns(vfg_wnan, vfg_winf, vfg_wfin, vfg_wg, vfg_gval)
#if VF_P == 1
/* P01: the three outcomes */
__CPROVER_ensures(vfg_fcalls <= 1)
__CPROVER_ensures(vfg_fcalls == 1 ==> VF_FIN(x[vfg_K]))
__CPROVER_ensures((vfg_fcalls == 0 && INF_SEEN(problem, x)) ==> VF_PINF(y[vfg_J]))
__CPROVER_ensures((vfg_fcalls == 0 && !INF_SEEN(problem, x)) ==>
  (!VF_INF(x[vfg_K]) && vfg_wnan < problem->number_of_variables && VF_NAN(x[vfg_wnan]) && VF_NAN(y[vfg_J])))
#endif
/* neither counted nor considered for the best value */
__CPROVER_ensures(vfg_fcalls == 0 ==> (vfg_ccalls == 0 && problem->evaluations == VF_OLD(problem->evaluations)
  && VF_SAME(problem->best_observed_fvalue[0], VF_OLD(problem->best_observed_fvalue[0]))
  && problem->best_observed_evaluation[0] == VF_OLD(problem->best_observed_evaluation[0])))
#if VF_P == 2
/* P02: accounting */
__CPROVER_ensures(vfg_fcalls == 1 ==> (problem->evaluations == VF_OLD(problem->evaluations) + 1
  && vfg_fx == x && vfg_fy == y && vfg_fp == problem && VF_SAME(y[vfg_J], vfg_fyJ)))
__CPROVER_ensures((vfg_fcalls == 1 && !(vfg_fy0 < VF_OLD(problem->best_observed_fvalue[0]))) ==>
  (VF_SAME(problem->best_observed_fvalue[0], VF_OLD(problem->best_observed_fvalue[0]))
  && problem->best_observed_evaluation[0] == VF_OLD(problem->best_observed_evaluation[0])))
__CPROVER_ensures((vfg_fcalls == 1 && vfg_fy0 < VF_OLD(problem->best_observed_fvalue[0]) && problem->number_of_constraints == 0) ==>
  (problem->best_observed_fvalue[0] == vfg_fy0 && problem->best_observed_evaluation[0] == problem->evaluations))
__CPROVER_ensures((vfg_fcalls == 1 && vfg_fy0 < VF_OLD(problem->best_observed_fvalue[0]) && problem->number_of_constraints > 0) ==>
  ( /* new best: every constraint value satisfied */
    (problem->best_observed_fvalue[0] == vfg_fy0 && problem->best_observed_evaluation[0] == problem->evaluations
      && vfg_ccalls == 1 && vfg_cupd == 0 && vfg_cx == x && VF_IMP(vfg_J < problem->number_of_constraints, !(vfg_cyK > 0)))
   || /* no new best: some constraint value violated (or a non-finite coordinate, excluded by the first clauses) */
    (VF_SAME(problem->best_observed_fvalue[0], VF_OLD(problem->best_observed_fvalue[0]))
      && problem->best_observed_evaluation[0] == VF_OLD(problem->best_observed_evaluation[0])
      && ((vfg_ccalls == 1 && vfg_cupd == 0 && vfg_gval > 0) || (vfg_wfin < problem->number_of_variables && !VF_FIN(x[vfg_wfin]))))))
#endif
;

/* --- coco_evaluate_constraint_optional_update --- */
#define CONS_CONTRACT(UPD) \
__CPROVER_requires(problem != NULL && vfg_ccalls == 0) \
__CPROVER_requires(vfg_K < problem->number_of_variables && problem->number_of_variables <= VF_NMAX) \
__CPROVER_requires(vfg_J < problem->number_of_constraints && problem->number_of_constraints <= VF_NMAX) \
__CPROVER_requires(problem->evaluate_constraint == stub_cons) \
__CPROVER_assigns(problem->evaluations_constraints) \
__CPROVER_assigns(__CPROVER_object_whole(y)) \
__CPROVER_assigns(vfg_ccalls, vfg_cx, vfg_cy, vfg_cp, vfg_cyK, vfg_cupd, vfg_wnan, vfg_winf) \
__CPROVER_ensures(vfg_ccalls <= 1) \
__CPROVER_ensures(vfg_ccalls == 1 ==> VF_FIN(x[vfg_K])) \
__CPROVER_ensures((vfg_ccalls == 0 && INF_SEEN(problem, x)) ==> VF_PINF(y[vfg_J])) \
__CPROVER_ensures((vfg_ccalls == 0 && !INF_SEEN(problem, x)) ==> \
  (!VF_INF(x[vfg_K]) && vfg_wnan < problem->number_of_variables && VF_NAN(x[vfg_wnan]) && VF_NAN(y[vfg_J]))) \
__CPROVER_ensures(vfg_ccalls == 0 ==> problem->evaluations_constraints == VF_OLD(problem->evaluations_constraints)) \
__CPROVER_ensures(vfg_ccalls == 1 ==> (vfg_cx == x && vfg_cy == y && vfg_cp == problem && VF_SAME(y[vfg_J], vfg_cyK) \
  && VF_IMP(VF_P == 2, ((vfg_cupd != 0) == ((UPD) != 0)) && problem->evaluations_constraints == VF_OLD(problem->evaluations_constraints) + ((UPD) ? 1 : 0))))

void ct_evaluate_constraint_opt(coco_problem_t *problem, const double *x, double *y, int update_counter)
CONS_CONTRACT(update_counter)
;
void ct_evaluate_constraint(coco_problem_t *problem, const double *x, double *y)
CONS_CONTRACT(1)
;

/* --- coco_is_feasible --- */
int ct_is_feasible(coco_problem_t *problem, const double *x, double *constraint_values)
__CPROVER_requires(problem != NULL && vfg_ccalls == 0)
__CPROVER_requires(vfg_K < problem->number_of_variables && problem->number_of_variables <= VF_NMAX)
__CPROVER_requires(problem->number_of_constraints <= VF_NMAX)
__CPROVER_assigns(constraint_values != NULL && problem->number_of_constraints > 0 : __CPROVER_object_whole(constraint_values))
__CPROVER_assigns(vfg_ccalls, vfg_cx, vfg_cy, vfg_cp, vfg_cyK, vfg_cupd, vfg_wfin, vfg_wg, vfg_gval)
/* feasible: x finite, no constraint value above zero */
__CPROVER_ensures(VF_RET == 0 || VF_RET == 1)
__CPROVER_ensures(VF_RET == 1 ==> VF_FIN(x[vfg_K]))
__CPROVER_ensures((VF_RET == 1 && vfg_J < problem->number_of_constraints) ==> (vfg_ccalls == 1 && !(vfg_cyK > 0)))
/* infeasible: a witness */
__CPROVER_ensures(VF_RET == 0 ==> ((vfg_ccalls == 0 && vfg_wfin < problem->number_of_variables && !VF_FIN(x[vfg_wfin]))
   || (vfg_ccalls == 1 && vfg_wg < problem->number_of_constraints && vfg_gval > 0)))
/* the constraints are evaluated at most once, at x, without touching the counter */
__CPROVER_ensures(vfg_ccalls <= 1)
__CPROVER_ensures(vfg_ccalls == 1 ==> (vfg_cupd == 0 && vfg_cx == x && vfg_cp == problem && problem->number_of_constraints > 0))
/* the values are handed back */
__CPROVER_ensures((vfg_ccalls == 1 && constraint_values != NULL) ==> (vfg_cy == constraint_values
   && VF_IMP(vfg_J < problem->number_of_constraints, VF_SAME(constraint_values[vfg_J], vfg_cyK))))
;

static coco_problem_t *mk_problem(size_t n, size_t m, size_t c) {
  coco_problem_t *p = vf_new(sizeof(*p));
  p->number_of_variables = n; p->number_of_objectives = m; p->number_of_constraints = c;
  p->evaluate_function = stub_eval; p->evaluate_constraint = stub_cons;
  p->problem_id = NULL;
  return p;
}
static double *mk_vec(size_t n) { return vf_new(n * sizeof(double)); }

void h_eval(void) {
  size_t n = nd_size(), m = nd_size(), c = nd_size();
  coco_problem_t *p; double *x, *y;
  VF_ASSUME(n > 0 && n <= VF_NMAX && m > 0 && m <= VF_NMAX && c <= VF_NMAX);
  p = mk_problem(n, m, c); x = mk_vec(n); y = mk_vec(m);
  vfg_K = nd_size(); vfg_J = nd_size(); VF_ASSUME(vfg_K < n && vfg_J < m);
  vfg_fcalls = 0; vfg_ccalls = 0;
  { double b0 = p->best_observed_fvalue[0];
  coco_evaluate_function(p, x, y);
  if (vfg_fcalls == 1) {
    if (p->best_observed_fvalue[0] < b0) VF_REACH("new best");
    if (p->number_of_constraints > 0 && vfg_fy0 < b0 && p->best_observed_fvalue[0] == b0) VF_REACH("infeasible");
  } else {
    if (VF_PINF(y[0])) VF_REACH("inf outcome");
    if (VF_NAN(y[0])) VF_REACH("nan outcome");
  }}
}
void h_cons(void) {
  size_t n = nd_size(), m = nd_size(), c = nd_size();
  coco_problem_t *p; double *x, *y; int u = nd_int();
  VF_ASSUME(n > 0 && n <= VF_NMAX && m <= VF_NMAX && c <= VF_NMAX && c > 0);
  p = mk_problem(n, m, c); x = mk_vec(n); y = mk_vec(c);
  vfg_K = nd_size(); vfg_J = nd_size(); VF_ASSUME(vfg_K < n && vfg_J < c);
  vfg_ccalls = 0;
#ifdef EXPLICIT
  coco_evaluate_constraint(p, x, y);
#else
  coco_evaluate_constraint_optional_update(p, x, y, u);
#endif
  if (vfg_ccalls) VF_REACH("constraint evaluated"); else { if (VF_PINF(y[0])) VF_REACH("inf outcome"); else VF_REACH("nan outcome"); }
}
void h_feas(void) {
  size_t n = nd_size(), c = nd_size();
  coco_problem_t *p; double *x, *y; int r;
  VF_ASSUME(n > 0 && n <= VF_NMAX && c <= VF_NMAX);
  p = mk_problem(n, 1, c); x = mk_vec(n); y = (c > 0 && nd_int()) ? mk_vec(c) : NULL;
  vfg_K = nd_size(); vfg_J = nd_size(); VF_ASSUME(vfg_K < n);
  if (c > 0) VF_ASSUME(vfg_J < c);
  vfg_ccalls = 0;
  r = coco_is_feasible(p, x, y);
  if (r) VF_REACH("feasible"); else if (vfg_ccalls) VF_REACH("infeasible"); else VF_REACH("non-finite");
}

/* --- helpers --- */
void h_vec(void) {
  size_t n = nd_size(); double *x;
  VF_ASSUME(n <= VF_NMAX);
  x = mk_vec(n);
  vfg_K = nd_size(); vfg_J = nd_size();
#if defined(F_CONTAINS_NAN)
  if (coco_vector_contains_nan(x, n)) VF_REACH("nan"); else VF_REACH("no nan");
#elif defined(F_ISFINITE)
  if (coco_vector_isfinite(x, n)) VF_REACH("finite"); else VF_REACH("not finite");
#elif defined(F_SET_NAN)
  coco_vector_set_to_nan(x, n); VF_REACH("end");
#elif defined(F_SET_INF)
  coco_vector_set_to_inf(x, n); VF_REACH("end");
#endif
}
void h_scalar(void) {
  double v = nd_double();
#if defined(F_ISNAN)
  if (coco_is_nan(v)) VF_REACH("nan"); else VF_REACH("not nan");
#else
  if (coco_is_inf(v)) VF_REACH("inf"); else VF_REACH("not inf");
#endif
}

/* --- target bookkeeping and counters read by experiments --- */
int ct_final_target_hit(const coco_problem_t *problem)
__CPROVER_requires(problem != NULL)
__CPROVER_assigns()
__CPROVER_ensures(VF_RET == 0 || VF_RET == 1)
__CPROVER_ensures(VF_RET == 1 ==> (problem->number_of_objectives == 1 && problem->evaluations >= 1 && problem->best_value != NULL
  && problem->best_observed_fvalue[0] <= problem->best_value[0] + problem->final_target_delta[0]))
__CPROVER_ensures((problem->number_of_objectives == 1 && problem->evaluations >= 1 && problem->best_value != NULL
  && problem->best_observed_fvalue[0] <= problem->best_value[0] + problem->final_target_delta[0]) ==> VF_RET == 1)
;
size_t ct_get_evaluations(const coco_problem_t *problem)
__CPROVER_requires(problem != NULL) __CPROVER_assigns() __CPROVER_ensures(VF_RET == problem->evaluations);
size_t ct_get_evaluations_constraints(const coco_problem_t *problem)
__CPROVER_requires(problem != NULL) __CPROVER_assigns() __CPROVER_ensures(VF_RET == problem->evaluations_constraints);
double ct_get_best_observed(const coco_problem_t *problem)
__CPROVER_requires(problem != NULL) __CPROVER_assigns() __CPROVER_ensures(VF_SAME(VF_RET, problem->best_observed_fvalue[0]));
double ct_get_final_target(const coco_problem_t *problem)
__CPROVER_requires(problem != NULL && problem->best_value != NULL) __CPROVER_assigns()
__CPROVER_ensures(VF_SAME(VF_RET, problem->best_value[0] + problem->final_target_delta[0]));
double ct_get_best_value(const coco_problem_t *problem)
__CPROVER_requires(problem != NULL && problem->best_value != NULL) __CPROVER_assigns()
__CPROVER_ensures(VF_SAME(VF_RET, problem->best_value[0]));

void h_get(void) {
  coco_problem_t *p = vf_new(sizeof(*p));
#if defined(F_HIT)
#ifdef NO_OPT
  p->best_value = NULL;
#else
  p->best_value = vf_new(sizeof(double));
#endif
  { int hit = coco_problem_final_target_hit(p);
#ifndef NO_OPT
  if (hit) VF_REACH("hit");
#endif
  if (!hit) VF_REACH("not hit"); }
#else
  p->best_value = vf_new(sizeof(double));
#if defined(F_EVALS)
  coco_problem_get_evaluations(p);
#elif defined(F_CEVALS)
  coco_problem_get_evaluations_constraints(p);
#elif defined(F_BEST)
  coco_problem_get_best_observed_fvalue1(p);
#elif defined(F_TARGET)
  coco_problem_get_final_target_fvalue1(p);
#elif defined(F_BESTV)
  coco_problem_get_best_value(p);
#endif
  VF_REACH("end");
#endif
}
