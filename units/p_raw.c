/* Contracts on the raw benchmark functions f_*_raw: for every point of every dimension
 *   (a) a NaN coordinate gives NaN, (b) finite coordinates give a value that is not NaN and not below 0 (the value at the optimum),
 *   (c) the optimum gives exactly 0, (d) nothing is modified (assigns: no memory of the problem, the point or the parameters). */
#define NDEBUG
#include "vf.h"
#include "ghost.h"
/* axioms on libm used instead of its code (C11 annex F); everything else about these functions is left open */
double __CPROVER_uninterpreted_pow(double, double); double __CPROVER_uninterpreted_log(double); double __CPROVER_uninterpreted_exp(double);
double __CPROVER_uninterpreted_sin(double); double __CPROVER_uninterpreted_sqrt(double); double __CPROVER_uninterpreted_cos(double);
static double vf_pow(double a, double b) {
  double r = __CPROVER_uninterpreted_pow(a, b);
  VF_ASSUME(!(a >= 0 && !VF_NAN(b)) || r >= 0);
  VF_ASSUME(!(a >= 1 && b >= 0) || r >= 1);
  VF_ASSUME(!(a == 0 && b > 0) || r == 0);
  VF_ASSUME(!(a == 1) || r == 1);
  VF_ASSUME(!(b == 2 && !VF_NAN(a)) || r >= 0);
  VF_ASSUME(!(VF_FIN(a) && a > 0 && VF_FIN(b) && b >= -40 && b <= 40 && a <= 1e7 && a >= 1) || r <= 1e281);
  VF_ASSUME(!(VF_NAN(a) && b != 0) || VF_NAN(r));
  VF_ASSUME(!(VF_PINF(a) && b > 0) || VF_PINF(r));
  VF_ASSUME(!(VF_FIN(a) && a >= 0 && b > 0 && b <= 1) || VF_FIN(r));
  VF_ASSUME(!(VF_FIN(a) && a >= 0 && b > 0 && b <= 0.1) || r <= 1e31);
  VF_ASSUME(!(a >= -1 && a <= 1 && b == 2) || r <= 1);
  return r;
}
static double vf_exp(double a) { double r = __CPROVER_uninterpreted_exp(a); VF_ASSUME(VF_NAN(a) || r >= 0); return r; }
static double vf_log(double a) { return __CPROVER_uninterpreted_log(a); }
static double vf_sin(double a) { double r = __CPROVER_uninterpreted_sin(a); VF_ASSUME(VF_FIN(a) ? (r >= -1 && r <= 1) : VF_NAN(r)); return r; }
static double vf_cos(double a) { double r = __CPROVER_uninterpreted_cos(a); VF_ASSUME(VF_FIN(a) ? (r >= -1 && r <= 1) : VF_NAN(r)); VF_ASSUME(!(a == 0) || r == 1); return r; }
static double vf_sqrt(double a) { double r = __CPROVER_uninterpreted_sqrt(a); VF_ASSUME(a >= 0 ? r >= 0 : VF_NAN(r)); VF_ASSUME(!(a == 0) || r == 0); VF_ASSUME(!(a == 100) || r == 10); VF_ASSUME(!(a >= 22) || r >= 4.69); return r; }
#define pow(a, b) vf_pow(a, b)
#define log(a) vf_log(a)
#define exp(a) vf_exp(a)
#define sin(a) vf_sin(a)
#define cos(a) vf_cos(a)
#define sqrt(a) vf_sqrt(a)
#define fabs(v) __CPROVER_fabs(v)
#ifndef OPTX
#define OPTX 0.0
#endif
/* instances of the universally quantified precondition on the coordinates */
#if defined(NOINST)
#define VF_INST(x, i) (void)0
#define VALUE ((vfg_wnan < n && VF_NAN(x[vfg_wnan])) || VF_RET == 0)
#elif defined(V_FIN)
#define VF_INST(x, i) VF_ASSUME((x)[i] >= -1e300 && (x)[i] <= 1e300)
#define VALUE ((vfg_wnan < n && VF_NAN(x[vfg_wnan])) || VF_RET >= 0)
#elif defined(V_OPT)
#define VF_INST(x, i) VF_ASSUME((x)[i] == OPTX)
#define VALUE ((vfg_wnan < n && VF_NAN(x[vfg_wnan])) || VF_RET == 0)
#else
#define VF_INST(x, i) (void)0
#define VALUE (!(VF_RET < (LOWER)))
#endif
#if defined(V_OPT)
#define ACC(r) ((r) == 0)
#elif defined(V_FIN)
#define ACC(r) ((r) >= 0)
#else
#define ACC(r) (!((r) < 0))
#endif
#if defined(V_OPT)
#define KACC(r) ((r) == 0)
#define KRES(r) ((r) == 1)
#elif defined(V_FIN)
#define KACC(r) ((r) >= 0)
#define KRES(r) ((r) >= 1)
#else
#define KACC(r) (!((r) < 0))
#define KRES(r) (!((r) < 1))
#endif
#ifndef LOWER
#define LOWER 0
#endif
#ifndef ASG
#define ASG
#endif
#ifdef V_FIN
#define ACCR(r, lo, hi) ((r) >= (lo) && (r) <= (hi))
#elif defined(V_OPT)
#define ACCR(r, lo, hi) ((r) == (V_OPT_LO ? (lo) : (hi)))
#else
#define ACCR(r, lo, hi) (!((r) < (lo)) && !((r) > (hi)))
#endif
#include "coco_problem.c"
#include "c_util.h"
#include SRC
#ifdef DATA
#define DPAR , DATA *d
#else
#define DPAR
#endif
#ifndef DOK
#define DOK 1
#endif
#ifndef NMIN
#define NMIN 1
#endif
double ct_raw(const double *x, const size_t n DPAR)
__CPROVER_requires(n >= NMIN && n <= VF_NMAX && __CPROVER_r_ok(x, n * sizeof(double)) && (DOK))
__CPROVER_assigns(vfg_wnan ASG)
__CPROVER_ensures(VALUE)
#ifndef NO_NANCHECK
__CPROVER_ensures(vfg_K < n && VF_NAN(x[vfg_K]) ==> VF_NAN(VF_RET))
#endif
;
void h_raw(void) {
  size_t n = nd_size();
  double *x, r;
  VF_ASSUME(n >= NMIN && n <= VF_NMAX);
  x = VF_ARR(double, n);
  vfg_K = nd_size(); VF_ASSUME(vfg_K < n);
  {
#ifdef DATA
    DATA *d = VF_OBJ(DATA);
    DINIT
    VF_ASSUME(DOK);
#endif
    VF_INST(x, 0);
#ifdef DATA
    r = FN(x, n, d);
#else
    r = FN(x, n);
#endif
  }
  if (n > 2 && r >= 0) VF_REACH("value, dimension above 2");
}
