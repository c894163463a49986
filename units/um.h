/* transcendental functions as uninterpreted functions (proof mode): equal arguments give equal results, nothing else is assumed */
#ifdef VF_PROOF
double __CPROVER_uninterpreted_pow(double, double); double __CPROVER_uninterpreted_log(double); double __CPROVER_uninterpreted_exp(double);
double __CPROVER_uninterpreted_sin(double); double __CPROVER_uninterpreted_sqrt(double); double __CPROVER_uninterpreted_log10(double); double __CPROVER_uninterpreted_cos(double);
#undef pow
#undef log
#undef exp
#undef sin
#undef cos
#undef sqrt
#undef log10
#ifdef VF_SIGNS
/* ... except that exp is never negative and pow keeps a non-negative base non-negative and maps NaN to NaN (C11 F.10) */
static double vf_pow_(double a, double b) { double r = __CPROVER_uninterpreted_pow(a, b); VF_ASSUME(!(a >= 0) || !(r < 0)); VF_ASSUME(a == a || (b == 0 ? r == 1 : r != r)); return r; }
static double vf_exp_(double a) { double r = __CPROVER_uninterpreted_exp(a); VF_ASSUME(r >= 0 || __CPROVER_isnand(r)); return r; }
#define pow(a, b) vf_pow_(a, b)
#define exp(a) vf_exp_(a)
#else
#define pow(a, b) __CPROVER_uninterpreted_pow(a, b)
#define exp(a) __CPROVER_uninterpreted_exp(a)
#endif
#define log(a) __CPROVER_uninterpreted_log(a)
#define sin(a) __CPROVER_uninterpreted_sin(a)
#define cos(a) __CPROVER_uninterpreted_cos(a)
#ifdef VF_SIGNS
static double vf_sqrt_(double a) { double r = __CPROVER_uninterpreted_sqrt(a); VF_ASSUME(r >= 0 || r != r); return r; }
#define sqrt(a) vf_sqrt_(a)
#else
#define sqrt(a) __CPROVER_uninterpreted_sqrt(a)
#endif
#define log10(a) __CPROVER_uninterpreted_log10(a)
#endif
