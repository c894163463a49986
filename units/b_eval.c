/* Bounded / native harness for the evaluation entry points (P01, P02, P03). */
#include "vf.h"
#include "coco_problem.c"
#define A1(c, m) do { if (VF_P == 1) VF_ASSERT(c, m); } while (0)
#define A2(c, m) do { if (VF_P == 2) VF_ASSERT(c, m); } while (0)
#define A12(c, m) do { if (VF_P == 1 || VF_P == 2) VF_ASSERT(c, m); } while (0)
#define A3(c, m) do { if (VF_P == 3) VF_ASSERT(c, m); } while (0)
#if VF_P == 3
#define REACH_3(m) VF_REACH(m)
#define REACH_NOT3(m)
#else
#define REACH_3(m)
#define REACH_NOT3(m) VF_REACH(m)
#endif
#if VF_P == 2
#define REACH_2(m) VF_REACH(m)
#else
#define REACH_2(m)
#endif
#ifndef NB
#define NB 3
#endif
#ifdef VF_NATIVE
#define NX 130
#else
#define NX NB
#endif
static double s_fv[64], s_cv[64];
static size_t s_fc, s_cc; static int s_upd; static const double *s_x; static coco_problem_t *s_p; static double *s_y, *s_cy; static const double *s_cx; static coco_problem_t *s_cp;
static void stub_eval(coco_problem_t *p, const double *x, double *y) {
  size_t i; s_fc++; s_x = x; s_p = p; s_y = y;
  for (i = 0; i < p->number_of_objectives; i++) y[i] = s_fv[i];
}
static void stub_cons(coco_problem_t *p, const double *x, double *y, int upd) {
  size_t i; s_cc++; s_cx = x; s_cp = p; s_upd = upd; s_cy = y;
  for (i = 0; i < p->number_of_constraints; i++) y[i] = s_cv[i];
}
void harness(void) {
  size_t n = vf_range(1, NX), m = vf_range(1, 2), c = vf_range(0, 2), i;
  int op = (int)vf_range(VF_P == 3 ? 2 : 0, VF_P == 3 ? 2 : VF_P == 1 ? 1 : 3), any_inf = 0, any_nan = 0, feas = 1, r;
  double x[NX], xc[NX], y[8], bv[2], best0 = vf_double();
  size_t ev0 = vf_range(0, 1000), evc0 = vf_range(0, 1000), bev0 = vf_range(0, 1000);
  coco_problem_t p;
  memset(&p, 0, sizeof p);
  p.number_of_variables = n; p.number_of_objectives = m; p.number_of_constraints = c;
  p.evaluate_function = stub_eval; p.evaluate_constraint = stub_cons; p.problem_id = "id";
  p.evaluations = ev0; p.evaluations_constraints = evc0;
  p.best_observed_fvalue[0] = best0; p.best_observed_evaluation[0] = bev0;
  p.best_value = bv; bv[0] = vf_double(); bv[1] = 0; p.final_target_delta[0] = vf_double();
  for (i = 0; i < n; i++) {
    x[i] = xc[i] = vf_double();
    if (VF_INF(x[i])) any_inf = 1;
    if (VF_NAN(x[i])) any_nan = 1;
  }
  for (i = 0; i < m; i++) s_fv[i] = vf_double();
  for (i = 0; i < c; i++) { s_cv[i] = vf_double(); if (s_cv[i] > 0) feas = 0; }
  for (i = 0; i < 8; i++) y[i] = -7.25;
  s_fc = s_cc = 0; s_upd = -1;
  if (op == 0) {
    coco_evaluate_function(&p, x, y);
    if (any_inf || any_nan) {
      A12(s_fc == 0 && s_cc == 0, "non-finite point does not reach the objective function");
      for (i = 0; i < m; i++) A1(any_inf ? VF_PINF(y[i]) : VF_NAN(y[i]), "non-finite point gets +inf / NaN objective values");
      A12(p.evaluations == ev0 && VF_SAME(p.best_observed_fvalue[0], best0) && p.best_observed_evaluation[0] == bev0, "non-finite point leaves the bookkeeping alone");
    } else {
      A2(s_fc == 1 && s_x == x && s_p == &p && s_y == y, "objective function is called exactly once with the point");
      A2(p.evaluations == ev0 + 1, "evaluation counter increases by exactly one");
      for (i = 0; i < m; i++) A2(VF_SAME(y[i], s_fv[i]), "objective values are returned unchanged");
      if (s_fv[0] < best0 && (c == 0 || feas))
        A2(p.best_observed_fvalue[0] == s_fv[0] && p.best_observed_evaluation[0] == ev0 + 1, "better feasible value becomes the best observed");
      else
        A2(VF_SAME(p.best_observed_fvalue[0], best0) && p.best_observed_evaluation[0] == bev0, "best observed value only changes on a better feasible value");
    }
    for (i = m; i < 8; i++) A1(y[i] == -7.25, "nothing is written behind the objective vector");
    A2(p.evaluations_constraints == evc0, "evaluating the objective does not count constraint evaluations");
    REACH_NOT3("evaluate");
  } else if (op == 1 && c > 0) {
    int u = (int)vf_range(0, 2);
    if (u == 2) { coco_evaluate_constraint(&p, x, y); u = 1; } else coco_evaluate_constraint_optional_update(&p, x, y, u);
    if (any_inf || any_nan) {
      A12(s_cc == 0, "non-finite point does not reach the constraint function");
      for (i = 0; i < c; i++) A1(any_inf ? VF_PINF(y[i]) : VF_NAN(y[i]), "non-finite point gets +inf / NaN constraint values");
      A12(p.evaluations_constraints == evc0, "non-finite point is not counted");
    } else {
      A2(s_cc == 1 && s_cx == x && s_cp == &p && s_cy == y && !s_upd == !u, "constraint function is called exactly once with the point");
      for (i = 0; i < c; i++) A2(VF_SAME(y[i], s_cv[i]), "constraint values are returned unchanged");
      A2(p.evaluations_constraints == evc0 + (u ? 1 : 0), "constraint counter increases by one iff asked to");
    }
    for (i = c; i < 8; i++) A1(y[i] == -7.25, "nothing is written behind the constraint vector");
    A2(p.evaluations == ev0 && s_fc == 0, "constraint evaluation does not count as function evaluation");
    REACH_NOT3("constraint");
  } else if (op == 2) {
    int usey = (int)vf_range(0, 1);
    r = coco_is_feasible(&p, x, (usey && c > 0) ? y : NULL);
    A3((r != 0) == (!any_inf && !any_nan && feas), "feasible iff finite and no constraint value is positive");
    A3(p.evaluations == ev0 && p.evaluations_constraints == evc0 && s_fc == 0 && s_cc <= 1, "feasibility test leaves the counters alone");
    if (s_cc) A3(s_upd == 0, "feasibility test does not ask the inner layers to count");
    if (s_cc && usey) for (i = 0; i < c; i++) A3(VF_SAME(y[i], s_cv[i]), "constraint values are handed back");
    REACH_3("feasible");
  } else if (op == 3) {
    int hit = m == 1 && ev0 >= 1 && best0 <= bv[0] + p.final_target_delta[0];
    A2((coco_problem_final_target_hit(&p) != 0) == hit, "final target hit iff best observed value reaches optimum plus precision");
    A2(coco_problem_get_evaluations(&p) == ev0 && coco_problem_get_evaluations_constraints(&p) == evc0, "counters are reported as they are");
    A2(VF_SAME(coco_problem_get_best_observed_fvalue1(&p), best0), "best observed value is reported as it is");
    A2(VF_SAME(coco_problem_get_final_target_fvalue1(&p), bv[0] + p.final_target_delta[0]), "final target value");
    REACH_2("target");
  }
  for (i = 0; i < n; i++) A1(VF_SAME(x[i], xc[i]), "the point is not modified");
}
