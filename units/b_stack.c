/* Native harness (P17): stacked problems against their components, linear constraints against an affine oracle, the known optimum of
 * the constrained suite. */
#include "vf.h"
#include "coco_random.c"
#include "coco_suite.c"
#include "coco_observer.c"
#include "coco_archive.c"
#define A(P, c, m) do { if (VF_P == (P)) VF_ASSERT(c, m); } while (0)
#define NM 64
static double u01(void) { return (double)vf_range(0, 1000003) / 1000003.0; }
static double rnd(double lo, double hi) { return lo + (hi - lo) * u01(); }
static int close_(double a, double b, double tol) { double s; if (a == b || (a != a && b != b)) return 1; s = fabs(a) > fabs(b) ? fabs(a) : fabs(b); return fabs(a - b) <= tol * (s > 1 ? s : 1); }
static coco_problem_t *unwrap(coco_problem_t *p) { while (p->evaluate_function != coco_problem_stacked_evaluate_function) p = ((coco_problem_transformed_data_t *)p->data)->inner_problem; return p; }
/* random stacks of linear constraints, with a function or without */
static coco_problem_t *lin(size_t n, double *g, double s, double *dir) { coco_problem_t *p = c_linear_transform(c_sum_variables_allocate(n), g, s); coco_problem_set_name(p, "linear"); return dir ? c_guarantee_feasible_point(p, dir) : p; }
static void stack(void) {
  size_t n = vf_range(1, 9), k = vf_range(1, 6), i, j, q; double g[6][NM], s[6], dir[NM], x[NM], x0[NM], y[8], lo[NM], hi[NM]; int hasdir = (int)vf_range(0, 2), fun = (int)vf_range(0, 1), right = (int)vf_range(0, 1), pre; coco_problem_t *p = NULL, *f = NULL; size_t cnt;
  for (i = 0; i < n; i++) { dir[i] = rnd(-2, 2); lo[i] = -5 - (double)i; hi[i] = 5 + (double)i; }
  for (j = 0; j < k; j++) {
    coco_problem_t *c; double v = 0, nn = 0; for (i = 0; i < n; i++) { g[j][i] = rnd(-3, 3); nn += g[j][i] * g[j][i]; } if (nn == 0) g[j][0] = 1;
    s[j] = vf_range(0, 1) ? 0 : rnd(0, 2); c = lin(n, g[j], s[j], hasdir ? dir : NULL);
    if (hasdir) { double t[1]; nn = 0; for (i = 0; i < n; i++) { v += g[j][i] * dir[i]; nn += g[j][i] * g[j][i]; } if (v - s[j] * sqrt(nn) > 0) for (i = 0; i < n; i++) g[j][i] = -g[j][i]; c->evaluate_constraint(c, dir, t, 0); A(17, t[0] <= 0, "the feasible direction is feasible"); }
    p = !p ? c : right ? coco_problem_stacked_allocate(p, c, lo, hi) : coco_problem_stacked_allocate(p, c, lo, hi);
  }
  pre = (int)k;
  if (fun) { f = f_sphere_allocate(n); p = coco_problem_stacked_allocate(f, p, lo, hi); p->best_value[0] = 0; }
  A(17, p->number_of_constraints == k && p->number_of_objectives == (fun ? 1 : 0) && p->number_of_variables == n, "sizes");
  if (k > 1 || fun) for (i = 0; i < n; i++) A(17, p->smallest_values_of_interest[i] == lo[i] && p->largest_values_of_interest[i] == hi[i], "bounds");
  if (hasdir) { A(17, p->initial_solution != NULL, "initial solution"); for (i = 0; i < n; i++) A(17, p->initial_solution[i] == dir[i], "initial solution is the feasible direction"); if (fun) A(17, coco_is_feasible(p, dir, NULL), "initial solution feasible"); }
  for (q = 0; q < 6; q++) {
    for (i = 0; i < n; i++) x[i] = vf_range(0, 5) ? rnd(-6, 6) : 0; memcpy(x0, x, sizeof x);
    for (i = 0; i < 8; i++) y[i] = 12345;
    cnt = p->evaluations_constraints; coco_evaluate_constraint(p, x, y); A(17, p->evaluations_constraints == cnt + 1, "one constraint evaluation");
    for (j = 0; j < k; j++) { double v = 0, nn = 0; for (i = 0; i < n; i++) nn += g[j][i] * g[j][i]; nn = sqrt(nn); for (i = 0; i < n; i++) { double t = g[j][i] * (x[i] - s[j] / nn * g[j][i]); if (t > 1e-11 || t < 0) v += t; } A(17, close_(y[j], v, 1e-12), "constraint j is gradient * x - shift * norm"); }
    for (j = k; j < 8; j++) A(17, y[j] == 12345, "nothing written beyond the constraints");
    if (fun) { double e = 0; cnt = p->evaluations; coco_evaluate_function(p, x, y); for (i = 0; i < n; i++) e += x[i] * x[i]; A(17, close_(y[0], e, 1e-12) && y[1] == (k > 1 ? y[1] : 12345) && p->evaluations == cnt + 1, "objective of the stack"); }
    A(17, !memcmp(x0, x, n * sizeof(double)), "the point is not modified");
  }
  coco_problem_free(p);
}
static size_t ncons(size_t f, size_t n) { static const size_t a[] = {1, 2, 6, 6, 6, 6}; size_t k = (f - 1) % 6; return a[k] + (k == 3 ? n / 2 : k == 4 ? n : k == 5 ? 3 * n : 0); }
static void constrained(void) {
  static const size_t DIM[] = {2, 3, 5, 10, 20, 40};
  size_t f = vf_range(1, 54), di = vf_range(0, vf_range(0, 5) ? 2 : 5), in = vf_range(1, 15), n = DIM[di], m = ncons(f, n), i, j, act = 0, q; char a[60], b[60]; coco_suite_t *s; coco_problem_t *p; double *y = malloc((m + n * m) * sizeof *y), *c = malloc(m * sizeof *c), v[1], x[NM], *h = malloc(m * sizeof *h), *l = malloc(m * sizeof *l);
  sprintf(a, "instances: %lu", (unsigned long)in); sprintf(b, "dimensions: %lu function_indices: %lu", (unsigned long)n, (unsigned long)f);
  s = coco_suite("bbob-constrained", a, b); p = coco_suite_get_next_problem(s, NULL);
  A(17, p->number_of_constraints == m + m / 2 && p->number_of_objectives == 1 && p->evaluations == 0 && p->evaluations_constraints == 0, "number of constraints, fresh counters");
  m = p->number_of_constraints; y = realloc(y, m * sizeof *y); c = realloc(c, m * sizeof *c); h = realloc(h, m * sizeof *h); l = realloc(l, m * sizeof *l);
  A(17, p->initial_solution && coco_is_feasible(p, p->initial_solution, NULL), "the initial solution is feasible");
  for (i = 0; i < n; i++) A(17, p->initial_solution[i] >= -5 && p->initial_solution[i] <= 5, "the initial solution is inside the box");
  A(17, coco_is_feasible(p, p->best_parameter, NULL), "the known optimum is feasible");
  p->evaluate_constraint(p, p->best_parameter, c, 0); for (j = 0; j < m; j++) { A(17, c[j] <= 0, "the known optimum is feasible"); if (c[j] > -1e-6) act++; }
  A(17, act >= 1, "a constraint is active at the optimum");
  coco_evaluate_function(p, p->best_parameter, v); A(17, close_(v[0], p->best_value[0], 1e-9), "the optimal value is the value at the optimum");
  /* no feasible point is better than the known optimum */
  for (q = 0; q < 20; q++) {
    double r = pow(10, rnd(-4, 1)); for (i = 0; i < n; i++) x[i] = p->best_parameter[i] + r * rnd(-1, 1);
    if (coco_is_feasible(p, x, NULL)) { coco_evaluate_function(p, x, v); A(17, v[0] >= p->best_value[0] - 1e-9 * (1 + fabs(p->best_value[0])), "no feasible point is better than the known optimum"); }
  }
  /* shifted linear constraints are affine: the midpoint has the mean value (sphere, linear slope, different powers: no nonlinear transformation of the variables) */
  for (q = 0; q < 3; q++) {
    double u[NM], w[NM]; coco_problem_t *st; size_t m1, m2;
    for (i = 0; i < n; i++) { u[i] = rnd(-5, 5); w[i] = rnd(-5, 5); x[i] = (u[i] + w[i]) / 2; }
    coco_evaluate_constraint(p, u, h); coco_evaluate_constraint(p, w, l); coco_evaluate_constraint(p, x, c);
    if (f <= 6 || (f >= 13 && f <= 18) || (f >= 37 && f <= 42)) for (j = 0; j < m; j++) { double sc = fabs(h[j]) + fabs(l[j]); A(17, fabs(c[j] - (h[j] + l[j]) / 2) <= 1e-9 * (1 + sc), "constraints are affine"); }
    /* objective and constraints of the stack are those of its components */
    st = unwrap(p); m1 = ((coco_problem_stacked_data_t *)st->data)->problem1->number_of_constraints; m2 = ((coco_problem_stacked_data_t *)st->data)->problem2->number_of_constraints;
    A(17, m1 == 0 && m2 == st->number_of_constraints, "the function first, the constraints second");
    st->evaluate_constraint(st, u, h, 0); ((coco_problem_stacked_data_t *)st->data)->problem2->evaluate_constraint(((coco_problem_stacked_data_t *)st->data)->problem2, u, l, 0);
    for (j = 0; j < m2; j++) A(17, h[j] == l[j], "constraints of the stack");
    st->evaluate_function(st, u, v); { double e[1]; coco_problem_t *p1 = ((coco_problem_stacked_data_t *)st->data)->problem1; p1->evaluate_function(p1, u, e); A(17, v[0] == e[0], "objective of the stack"); }
  }
  free(y); free(c); free(h); free(l);
  coco_suite_free(s);
}
static void biobj(void) {
  static const size_t DIM[] = {2, 3, 5, 10, 20};
  size_t f = vf_range(1, 55), di = vf_range(0, 4), in = vf_range(1, 15), n = DIM[di], i, q; char a[60], b[60]; coco_suite_t *s; coco_problem_t *p, *st, *p1, *p2; double x[NM], y[2], e[2]; int ext = (int)vf_range(0, 1);
  if (ext) f = vf_range(1, 92);
  sprintf(a, "instances: %lu", (unsigned long)in); sprintf(b, "dimensions: %lu function_indices: %lu", (unsigned long)n, (unsigned long)f);
  s = coco_suite(ext ? "bbob-biobj-ext" : "bbob-biobj", a, b); p = coco_suite_get_next_problem(s, NULL); st = unwrap(p); p1 = ((coco_problem_stacked_data_t *)st->data)->problem1; p2 = ((coco_problem_stacked_data_t *)st->data)->problem2;
  A(17, p->number_of_objectives == 2 && p->number_of_constraints == 0, "two objectives");
  if (p == st) {
    A(17, p->best_value[0] == p1->best_value[0] && p->best_value[1] == p2->best_value[0], "ideal point");
    p1->evaluate_function(p1, p2->best_parameter, e); p2->evaluate_function(p2, p1->best_parameter, e + 1); A(17, p->nadir_value[0] == e[0] && p->nadir_value[1] == e[1], "nadir point");
    A(17, p->best_value[0] < p->nadir_value[0] && p->best_value[1] < p->nadir_value[1], "ideal below nadir");
  }
  for (q = 0; q < 5; q++) {
    for (i = 0; i < n; i++) x[i] = rnd(-6, 6);
    coco_evaluate_function(st, x, y); p1->evaluate_function(p1, x, e); p2->evaluate_function(p2, x, e + 1); A(17, y[0] == e[0] && y[1] == e[1], "objectives are those of the components, in order");
  }
  coco_suite_free(s);
}
void harness(void) { coco_log_level = COCO_ERROR; vfg_error_allowed = 0; switch (vf_range(0, 3)) { case 0: stack(); break; case 1: biobj(); break; default: constrained(); } }
