/* Contracts on the noise models (transform_obj_*_noise.c), the seeds they draw from and the random number generators.
 *   a noisy evaluation: the wrapped problem once, at the point handed in; its value is recorded as noise-free value; a fixed number
 *   of variates is drawn; the value is the documented function of (noise-free value, variates, penalty) and not below f_opt. */
#define NDEBUG
#include "vf.h"
#include "ghost.h"
double __CPROVER_uninterpreted_pow(double, double); double __CPROVER_uninterpreted_log(double); double __CPROVER_uninterpreted_exp(double);
double __CPROVER_uninterpreted_sqrt(double); double __CPROVER_uninterpreted_cos(double);
/* axioms on libm (C11 annex F; the bounds are those of the arguments that occur here) */
static double vf_pow(double a, double b) { double r = __CPROVER_uninterpreted_pow(a, b);
  VF_ASSUME(!(a >= 0 && !VF_NAN(b)) || r >= 0); VF_ASSUME(!(a >= 0 && a <= 1 && b >= 0) || r <= 1); VF_ASSUME(!(a >= 0 && a <= 1e108 && b >= 0 && b <= 2) || r <= 1e217); return r; }
static double vf_exp(double a) { double r = __CPROVER_uninterpreted_exp(a); VF_ASSUME(VF_NAN(a) || r >= 0); VF_ASSUME(!(a <= 100) || r <= 1e44); return r; }
static double vf_log(double a) { double r = __CPROVER_uninterpreted_log(a); VF_ASSUME(!(a >= 1e-99 && a <= 1) || (r >= -228 && r <= 0)); VF_ASSUME(!(a > 0 && a <= 1) || (r >= -745 && r <= 0)); return r; }
static double vf_cos(double a) { double r = __CPROVER_uninterpreted_cos(a); VF_ASSUME(!VF_FIN(a) || (r >= -1 && r <= 1)); return r; }
static double vf_sqrt(double a) { double r = __CPROVER_uninterpreted_sqrt(a); VF_ASSUME(!(a >= 0) || (r >= 0 && r <= (a < 1 ? 1 : a))); VF_ASSUME(!(a <= 456) || r <= 21.5); VF_ASSUME(!(a <= 1490) || r <= 38.7); return r; }
/* exact for the arguments that occur */
static double vf_floor(double v) { VF_ASSERT(v >= 0 && v < 4503599627370496.0, "floor of a small nonnegative number"); return (double)(long)v; }
#undef pow
#undef exp
#undef log
#undef cos
#undef sqrt
#undef floor
#define pow(a, b) vf_pow(a, b)
#define exp(a) vf_exp(a)
#define log(a) vf_log(a)
#define cos(a) vf_cos(a)
#define sqrt(a) vf_sqrt(a)
#define floor(a) vf_floor(a)
#define fabs(v) __CPROVER_fabs(v)
static size_t vfg_calls, vfg_n, vfg_m, vfg_nu, vfg_ng, vfg_wout;
static double vfg_u[2], vfg_g[2], vfg_pen, vfg_yJ, vfg_y0, vfg_a;
static int vfg_out, vfg_unifs;
static long vfg_seed;
static const double *vfg_x;
/* number k of the state is in [0, 1) */
#define INR(s, k) ((s)->x[k] >= 0.0 && (s)->x[k] < 1.0)
#include "suite_bbob_noisy_utilities.c"
#include "transform_obj_gaussian_noise.c"
#include "transform_obj_uniform_noise.c"
#include "transform_obj_cauchy_noise.c"
static coco_problem_t *vfg_inner;
static void stub_eval(coco_problem_t *problem, const double *x, double *y) {
  VF_ASSERT(problem == vfg_inner && x == vfg_x, "the wrapped problem is evaluated at the point handed in");
  vfg_calls++;
  __CPROVER_havoc_object(y);
  vfg_yJ = y[vfg_J]; vfg_y0 = y[0];
  VF_ASSUME(vfg_y0 >= *vfg_inner->best_value && vfg_y0 <= 1e80);
}
#define OUT(k) (x[k] > problem->largest_values_of_interest[k] || x[k] < problem->smallest_values_of_interest[k])
/* the penalty is never negative and zero exactly inside the region of interest */
double ct_penalty(coco_problem_t *problem, const double *x)
__CPROVER_requires(x == vfg_x && problem->number_of_variables == vfg_n)
__CPROVER_requires(__CPROVER_r_ok(x, vfg_n * sizeof(double)) && __CPROVER_r_ok(problem->largest_values_of_interest, vfg_n * sizeof(double)) && __CPROVER_r_ok(problem->smallest_values_of_interest, vfg_n * sizeof(double)))
__CPROVER_assigns(vfg_out, vfg_pen)
__CPROVER_ensures(VF_RET >= 0 && vfg_pen == VF_RET)
__CPROVER_ensures(vfg_out == 0 ==> (VF_RET == 0 && !OUT(vfg_K)))
;
double ct_penalty_body(coco_problem_t *problem, const double *x)
__CPROVER_requires(x == vfg_x && problem->number_of_variables == vfg_n && vfg_out == 0)
__CPROVER_requires(__CPROVER_r_ok(x, vfg_n * sizeof(double)) && __CPROVER_r_ok(problem->largest_values_of_interest, vfg_n * sizeof(double)) && __CPROVER_r_ok(problem->smallest_values_of_interest, vfg_n * sizeof(double)))
__CPROVER_assigns(vfg_out)
__CPROVER_ensures(VF_RET >= 0)
__CPROVER_ensures(vfg_out == 0 ==> (VF_RET == 0 && !OUT(vfg_K)))
;
/* a variate: exactly one seed is consumed, the value is a function of the seed */
#define SEED_OK(s) ((s) >= 1 && (s) <= 1000000000L)
#define NEXT(s) ((s) + 1 > 1000000000L ? 1 : (s) + 1)
double ct_uniform(void)
__CPROVER_requires(SEED_OK(RANDSEED))
__CPROVER_assigns(RANDSEED, vfg_seed, vfg_unifs, vfg_a)
__CPROVER_ensures(RANDSEED == NEXT(VF_OLD(RANDSEED)) && vfg_seed == RANDSEED && vfg_unifs == VF_OLD(vfg_unifs) + 1 && VF_RET == vfg_a && VF_RET > 0 && VF_RET <= 1)
;
double ct_gaussian(void)
__CPROVER_requires(SEED_OK(RANDNSEED))
__CPROVER_assigns(RANDNSEED, vfg_seed, vfg_unifs, vfg_a)
__CPROVER_ensures(RANDNSEED == NEXT(VF_OLD(RANDNSEED)) && vfg_seed == RANDNSEED && vfg_unifs == VF_OLD(vfg_unifs) + 1 && VF_SAME(VF_RET, vfg_a) && VF_RET >= -22 && VF_RET <= 22 && VF_RET != 0)
;
/* the same, as used by the noise models */
double ct_uniform_use(void)
__CPROVER_requires(vfg_nu < 2)
__CPROVER_assigns(vfg_nu, __CPROVER_object_whole(vfg_u))
__CPROVER_ensures(vfg_nu == VF_OLD(vfg_nu) + 1 && VF_RET == vfg_u[VF_OLD(vfg_nu)] && VF_RET > 0 && VF_RET <= 1 && (VF_OLD(vfg_nu) == 1 ==> vfg_u[0] == VF_OLD(vfg_u[0])))
;
double ct_gaussian_use(void)
__CPROVER_requires(vfg_ng < 2)
__CPROVER_assigns(vfg_ng, __CPROVER_object_whole(vfg_g))
__CPROVER_ensures(vfg_ng == VF_OLD(vfg_ng) + 1 && VF_RET == vfg_g[VF_OLD(vfg_ng)] && VF_RET >= -22 && VF_RET <= 22 && VF_RET != 0 && (VF_OLD(vfg_ng) == 1 ==> vfg_g[0] == VF_OLD(vfg_g[0])))
;
void ct_unif(double *r, size_t N, long inseed)
__CPROVER_requires(N >= 1 && N <= 6000 && __CPROVER_w_ok(r, N * sizeof(double)) && inseed >= -2147483646L && inseed <= 2147483646L)
__CPROVER_assigns(__CPROVER_object_upto(r, N * sizeof(double)))
__CPROVER_ensures(vfg_J < N ==> (r[vfg_J] >= 1e-99 && r[vfg_J] <= 1))
;
void ct_unif_use(double *r, size_t N, long inseed)
__CPROVER_requires(N == 1 && __CPROVER_w_ok(r, N * sizeof(double)) && SEED_OK(inseed))
__CPROVER_assigns(vfg_unifs, vfg_seed, vfg_a, __CPROVER_object_upto(r, N * sizeof(double)))
__CPROVER_ensures(vfg_unifs == VF_OLD(vfg_unifs) + 1 && vfg_seed == inseed && vfg_a == r[0] && r[0] >= 1e-99 && r[0] <= 1)
;
void ct_gauss_use(double *g, const size_t N, const long seed)
__CPROVER_requires(N == 1 && __CPROVER_w_ok(g, N * sizeof(double)) && SEED_OK(seed))
__CPROVER_assigns(vfg_unifs, vfg_seed, vfg_a, __CPROVER_object_upto(g, N * sizeof(double)))
__CPROVER_ensures(vfg_unifs == VF_OLD(vfg_unifs) + 1 && vfg_seed == seed && vfg_a == g[0] && g[0] >= -22 && g[0] <= 22 && g[0] != 0)
;
/* as called by bbob2009_gauss; the two entries that matter are those read */
void ct_unif_gauss(double *r, size_t N, long inseed)
__CPROVER_requires(N >= 1 && N <= 6000 && __CPROVER_w_ok(r, N * sizeof(double)))
__CPROVER_assigns(__CPROVER_object_whole(r))
__CPROVER_ensures(vfg_K < N ==> (r[vfg_K] >= 1e-99 && r[vfg_K] <= 1))
__CPROVER_ensures(vfg_K + vfg_n < N ==> (r[vfg_K + vfg_n] >= 1e-99 && r[vfg_K + vfg_n] <= 1))
;
void ct_gauss(double *g, const size_t N, const long seed)
__CPROVER_requires(N >= 1 && 2 * N < 6000 && N == vfg_n && vfg_K < N && __CPROVER_w_ok(g, N * sizeof(double)))
__CPROVER_assigns(__CPROVER_object_upto(g, N * sizeof(double)))
__CPROVER_ensures(g[vfg_K] >= -22 && g[vfg_K] <= 22 && g[vfg_K] != 0)
;
#define TOL (1.01 * 1e-8)
#define FOPT (*vfg_inner->best_value)
#define TD_ ((coco_problem_transformed_data_t *)problem->data)
#if defined(N_GAUSS)
#define FN transform_obj_gaussian_noise_evaluate_function
#define DATA transform_obj_gaussian_noise_data_t
#define DRAWS (vfg_nu == 0 && vfg_ng == 1)
#define PARAMS(d) (d->beta >= 0 && d->beta <= 4)
#define VALUE(d) ((vfg_y0 - FOPT) * exp(d->beta * vfg_g[0]) + TOL + FOPT + vfg_pen)
#elif defined(N_UNIF)
#define FN transform_obj_uniform_noise_evaluate_function
#define DATA transform_obj_uniform_noise_data_t
#define DRAWS (vfg_nu == 2 && vfg_ng == 0)
#define PARAMS(d) (d->alpha >= 0 && d->alpha <= 2 && d->beta >= 0 && d->beta <= 4)
#elif defined(N_CAUCHY)
#define FN transform_obj_cauchy_noise_evaluate_function
#define DATA transform_obj_cauchy_noise_data_t
#define DRAWS (vfg_nu == 1 && vfg_ng == 2)
#define PARAMS(d) (d->alpha >= 0 && d->alpha <= 4 && d->p >= 0 && d->p <= 1)
#else
#define FN (void)
#define DATA transform_obj_gaussian_noise_data_t
#define DRAWS 1
#define PARAMS(d) 1
#endif
void ct_noise(coco_problem_t *problem, const double *x, double *y)
__CPROVER_requires(vfg_calls == 0 && vfg_nu == 0 && vfg_ng == 0 && vfg_out == 0)
__CPROVER_assigns(vfg_calls, vfg_nu, vfg_ng, vfg_out, vfg_pen, vfg_yJ, vfg_y0, __CPROVER_object_whole(vfg_u), __CPROVER_object_whole(vfg_g), __CPROVER_object_whole(y), __CPROVER_object_whole(problem->last_noise_free_values))
__CPROVER_ensures(vfg_calls == 1 && DRAWS)
__CPROVER_ensures(VF_SAME(problem->last_noise_free_values[vfg_J], vfg_yJ))
__CPROVER_ensures(vfg_J > 0 ==> VF_SAME(y[vfg_J], vfg_yJ))
#if !defined(NOVAL)
__CPROVER_ensures(y[0] >= FOPT)
#endif
;
/* the lagged-Fibonacci generator: all numbers of the state are in [0, 1) */
void ct_generate(coco_random_state_t *state)
__CPROVER_requires(vfg_K < 607 && INR(state, vfg_K))
__CPROVER_assigns(__CPROVER_object_whole(state))
__CPROVER_ensures(INR(state, vfg_K) && state->index == 0)
;
/* the same, as used by coco_random_uniform: the state it is called with satisfies the invariant */
void ct_generate_use(coco_random_state_t *state)
__CPROVER_requires(vfg_unifs == 0)
__CPROVER_assigns(vfg_unifs, __CPROVER_object_whole(state))
__CPROVER_ensures(INR(state, vfg_K) && INR(state, vfg_J) && state->index == 0 && vfg_unifs == 1)
;
double ct_random_uniform(coco_random_state_t *state)
__CPROVER_requires(vfg_unifs == 0 && vfg_K == (state->index >= 607 ? 0 : state->index) && vfg_J < 607 && INR(state, vfg_K) && INR(state, vfg_J))
__CPROVER_assigns(vfg_unifs, __CPROVER_object_whole(state))
__CPROVER_ensures(VF_RET >= 0 && VF_RET < 1 && INR(state, vfg_J) && VF_RET == state->x[vfg_K])
__CPROVER_ensures(state->index == vfg_K + 1 && vfg_unifs == (VF_OLD(state->index) >= 607))
__CPROVER_ensures(vfg_unifs == 0 ==> state->x[vfg_J] == VF_OLD(state->x[vfg_J]))
;
double ct_random_uniform_use(coco_random_state_t *state)
__CPROVER_assigns(__CPROVER_object_whole(state), vfg_unifs)
__CPROVER_ensures(VF_RET >= 0 && VF_RET < 1 && vfg_unifs == VF_OLD(vfg_unifs) + 1)
;
double ct_random_normal(coco_random_state_t *state)
__CPROVER_assigns(__CPROVER_object_whole(state), vfg_unifs)
__CPROVER_ensures(VF_RET >= -40 && VF_RET <= 40 && vfg_unifs == VF_OLD(vfg_unifs) + 2)
;
coco_random_state_t *ct_random_new(uint32_t seed)
__CPROVER_assigns()
__CPROVER_ensures(VF_RET->index < 607 && (vfg_K < 607 ==> (VF_RET->x[vfg_K] >= 0 && VF_RET->x[vfg_K] < 1)))
;
static double *mk_vec(size_t n) { return VF_ARR(double, n); }
void h(void) {
  size_t n = nd_size(), m = nd_size();
  VF_ASSUME(n > 0 && n <= VF_NMAX && m > 0 && m <= VF_NMAX);
  vfg_K = nd_size(); vfg_J = nd_size(); vfg_calls = vfg_nu = vfg_ng = 0; vfg_out = 0; vfg_unifs = 0;
#if defined(N_GAUSS) || defined(N_UNIF) || defined(N_CAUCHY) || defined(N_PEN)
  { coco_problem_t *p = VF_OBJ(coco_problem_t), *q = VF_OBJ(coco_problem_t); coco_problem_transformed_data_t *t = VF_OBJ(coco_problem_transformed_data_t);
    DATA *d = VF_OBJ(DATA); double *x = mk_vec(n), *y = mk_vec(m);
    p->number_of_variables = q->number_of_variables = n; p->number_of_objectives = q->number_of_objectives = m; vfg_inner = q; vfg_n = n; vfg_m = m;
    p->smallest_values_of_interest = mk_vec(n); p->largest_values_of_interest = mk_vec(n); p->last_noise_free_values = mk_vec(m); q->best_value = mk_vec(1);
    q->evaluate_function = stub_eval; p->data = t; t->inner_problem = q; t->data = d; vfg_x = x;
    VF_ASSUME(vfg_K < n && vfg_J < m && PARAMS(d) && *q->best_value >= -1e4 && *q->best_value <= 1e4);
#if defined(N_PEN)
    { double r = coco_boundary_handling(p, x); if (r > 0) VF_REACH("penalty"); if (vfg_out == 0 && n > 2) VF_REACH("no penalty"); }
#else
    FN(p, x, y); if (vfg_J > 2) VF_REACH("evaluated"); if (y[0] > FOPT && VF_FIN(y[0])) VF_REACH("noise");
#endif
  }
#elif defined(N_SU)
  { double r; VF_ASSUME(SEED_OK(RANDSEED)); r = coco_sample_uniform_noise(); if (RANDSEED == 1) VF_REACH("wrapped"); if (RANDSEED == 31) VF_REACH("next"); }
#elif defined(N_SG)
  { double r; VF_ASSUME(SEED_OK(RANDNSEED)); r = coco_sample_gaussian_noise(); if (RANDNSEED == 1) VF_REACH("wrapped"); if (RANDNSEED == 31) VF_REACH("next"); }
#elif defined(N_BU)
  { double *r; VF_ASSUME(n <= 6000); r = mk_vec(n); bbob2009_unif(r, n, nd_long()); if (n > 3) VF_REACH("drawn"); }
#elif defined(N_BG)
  { double *r; VF_ASSUME(2 * n < 6000 && vfg_K < n); vfg_n = n; r = mk_vec(n); bbob2009_gauss(r, n, nd_long()); if (n > 3) VF_REACH("drawn"); }
#elif defined(N_GEN)
  { coco_random_state_t *s = VF_OBJ(coco_random_state_t); VF_ASSUME(vfg_K < 607); coco_random_generate(s); VF_REACH("generated"); }
#elif defined(N_RU)
  { coco_random_state_t *s = VF_OBJ(coco_random_state_t); double r; VF_ASSUME(vfg_K < 607 && vfg_J < 607); r = coco_random_uniform(s); if (s->index == 1) VF_REACH("refilled"); if (s->index == 55) VF_REACH("drawn"); }
#elif defined(N_RN)
  { coco_random_state_t *s = VF_OBJ(coco_random_state_t); double r; r = coco_random_normal(s); if (r > 3) VF_REACH("drawn"); }
#elif defined(N_NEW)
  { coco_random_state_t *s = coco_random_new((uint32_t)nd_int()); VF_REACH("created"); }
#endif
}
