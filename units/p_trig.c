/* Contracts on the logging triggers of coco_observer.c. */
#define NDEBUG
#include "vf.h"
#include "ghost.h"
#include "um.h"
double __CPROVER_uninterpreted_floor(double); double __CPROVER_uninterpreted_ceil(double);
#define floor(a) __CPROVER_uninterpreted_floor(a)
#define ceil(a) __CPROVER_uninterpreted_ceil(a)
static size_t vfg_e0, vfg_old1, vfg_img1, vfg_nlog, vfg_nlin, vfg_n1, vfg_n2, vfg_ev;
static int vfg_rlog, vfg_rlin, vfg_set;
static double vfg_given;
static double vf_ru(const double number, const double precision);
static size_t vf_d2s(const double number);
/* number of evaluations at exponent e, as documented: floor(10^(e/n)) */
#define V1(e, n) vf_d2s(floor(pow(10, (double)(e) / (double)(n))))
#include "coco_suite.c"
#include "coco_observer.c"
double __CPROVER_uninterpreted_ru(double, double);
size_t __CPROVER_uninterpreted_d2s(double);
static size_t vf_d2s(const double number) { return __CPROVER_uninterpreted_d2s(number); }
static double vf_ru(const double number, const double precision) { return __CPROVER_uninterpreted_ru(number, precision); }
int ct_first(coco_observer_evaluations_t *evaluations, const size_t evaluation_number)
__CPROVER_requires(__CPROVER_rw_ok(evaluations, sizeof(*evaluations)))
__CPROVER_requires(evaluations->number_of_triggers >= 1 && evaluations->number_of_triggers <= 1000000 && evaluations->exponent1 <= 1000000000)
__CPROVER_assigns(evaluations->value1, evaluations->exponent1, vfg_img1, vfg_set, vfg_n1, vfg_e0)
__CPROVER_ensures(VF_RET == 0 || VF_RET == 1)
__CPROVER_ensures((VF_RET == 1) == (evaluation_number >= VF_OLD(evaluations->value1)))
__CPROVER_ensures(VF_RET == 0 ==> (evaluations->value1 == VF_OLD(evaluations->value1) && evaluations->exponent1 == VF_OLD(evaluations->exponent1)))
__CPROVER_ensures(VF_RET == 1 ==> (evaluations->value1 > VF_OLD(evaluations->value1) && evaluations->exponent1 >= VF_OLD(evaluations->exponent1)))
/* no value of the sequence is left out: the exponents that were passed over stand for values already reached */
__CPROVER_ensures((VF_RET == 1 && vfg_K >= VF_OLD(evaluations->exponent1) && vfg_K < evaluations->exponent1) ==> (vfg_set == 1 && vfg_img1 <= VF_OLD(evaluations->value1)))
__CPROVER_ensures(VF_RET == 1 ==> evaluations->value1 == V1(evaluations->exponent1, evaluations->number_of_triggers))
;
void ct_second_pre(void);
int ct_second(coco_observer_evaluations_t *evaluations, const size_t evaluation_number)
__CPROVER_requires(__CPROVER_rw_ok(evaluations, sizeof(*evaluations)))
__CPROVER_requires(evaluations->base_count >= 1 && evaluations->base_count <= VF_NMAX && evaluations->base_index < evaluations->base_count && evaluations->exponent2 < 1000000)
__CPROVER_requires(__CPROVER_r_ok(evaluations->base_evaluations, evaluations->base_count * sizeof(size_t)))
__CPROVER_assigns(evaluations->value2, evaluations->base_index, evaluations->exponent2)
__CPROVER_ensures(VF_RET == 0 || VF_RET == 1)
__CPROVER_ensures((VF_RET == 1) == (evaluation_number >= VF_OLD(evaluations->value2)))
__CPROVER_ensures(VF_RET == 0 ==> (evaluations->value2 == VF_OLD(evaluations->value2) && evaluations->base_index == VF_OLD(evaluations->base_index) && evaluations->exponent2 == VF_OLD(evaluations->exponent2)))
/* the next base value; after the last one the first one again, ten times as large */
__CPROVER_ensures((VF_RET == 1 && VF_OLD(evaluations->base_index) + 1 < evaluations->base_count) ==> (evaluations->base_index == VF_OLD(evaluations->base_index) + 1 && evaluations->exponent2 == VF_OLD(evaluations->exponent2)))
__CPROVER_ensures((VF_RET == 1 && VF_OLD(evaluations->base_index) + 1 == evaluations->base_count) ==> (evaluations->base_index == 0 && evaluations->exponent2 == VF_OLD(evaluations->exponent2) + 1))
__CPROVER_ensures(VF_RET == 1 ==> evaluations->value2 == vf_d2s(pow(10, (double)evaluations->exponent2) * (double)(long)evaluations->dimension * (double)(long)evaluations->base_evaluations[evaluations->base_index]))
;
int ct_first_c(coco_observer_evaluations_t *evaluations, const size_t evaluation_number)
__CPROVER_requires(evaluation_number == vfg_ev)
__CPROVER_assigns(vfg_n1, vfg_rlog)
__CPROVER_ensures(vfg_n1 == VF_OLD(vfg_n1) + 1 && VF_RET == vfg_rlog && (VF_RET == 0 || VF_RET == 1))
;
int ct_second_c(coco_observer_evaluations_t *evaluations, const size_t evaluation_number)
__CPROVER_requires(evaluation_number == vfg_ev)
__CPROVER_assigns(vfg_n2, vfg_rlin)
__CPROVER_ensures(vfg_n2 == VF_OLD(vfg_n2) + 1 && VF_RET == vfg_rlin && (VF_RET == 0 || VF_RET == 1))
;
int ct_both(coco_observer_evaluations_t *evaluations, const size_t evaluation_number)
__CPROVER_requires(vfg_n1 == 0 && vfg_n2 == 0 && evaluation_number == vfg_ev)
__CPROVER_assigns(vfg_n1, vfg_n2, vfg_rlog, vfg_rlin)
__CPROVER_ensures(vfg_n1 == 1 && vfg_n2 == 1)
__CPROVER_ensures((VF_RET != 0) == (vfg_rlog != 0 || vfg_rlin != 0))
;
#define LIM 1e300
int ct_log(coco_observer_log_targets_t *log_targets, const double given_value)
__CPROVER_requires(log_targets == NULL || __CPROVER_rw_ok(log_targets, sizeof(*log_targets)))
__CPROVER_assigns(log_targets != NULL : log_targets->exponent, log_targets->value)
__CPROVER_ensures(VF_RET == 0 || VF_RET == 1)
__CPROVER_ensures(log_targets == NULL ==> VF_RET == 0)
__CPROVER_ensures((VF_RET == 0 && log_targets != NULL) ==> (log_targets->exponent == VF_OLD(log_targets->exponent) && VF_SAME(log_targets->value, VF_OLD(log_targets->value))))
__CPROVER_ensures(VF_RET == 1 ==> log_targets->exponent < VF_OLD(log_targets->exponent))
__CPROVER_ensures((VF_RET == 1 && given_value == 0) ==> log_targets->value == 0)
;
int ct_lin(coco_observer_lin_targets_t *lin_targets, const double given_value)
__CPROVER_requires(__CPROVER_rw_ok(lin_targets, sizeof(*lin_targets)))
__CPROVER_assigns(lin_targets->value)
__CPROVER_ensures(VF_RET == 0 || VF_RET == 1)
__CPROVER_ensures((VF_RET == 1) == (__CPROVER_uninterpreted_ru(given_value, lin_targets->precision) < VF_OLD(lin_targets->value)))
__CPROVER_ensures(VF_RET == 1 ==> lin_targets->value == __CPROVER_uninterpreted_ru(given_value, lin_targets->precision))
__CPROVER_ensures(VF_RET == 0 ==> VF_SAME(lin_targets->value, VF_OLD(lin_targets->value)))
;
int ct_log_c(coco_observer_log_targets_t *log_targets, const double given_value)
__CPROVER_requires(VF_SAME(given_value, vfg_given))
__CPROVER_assigns(vfg_nlog, vfg_rlog)
__CPROVER_ensures(vfg_nlog == VF_OLD(vfg_nlog) + 1 && VF_RET == vfg_rlog)
;
int ct_lin_c(coco_observer_lin_targets_t *lin_targets, const double given_value)
__CPROVER_requires(VF_SAME(given_value, vfg_given))
__CPROVER_assigns(vfg_nlin, vfg_rlin)
__CPROVER_ensures(vfg_nlin == VF_OLD(vfg_nlin) + 1 && VF_RET == vfg_rlin)
;
int ct_targets(coco_observer_targets_t *targets, const double given_value)
__CPROVER_requires(vfg_nlog == 0 && vfg_nlin == 0 && VF_SAME(given_value, vfg_given))
__CPROVER_assigns(vfg_nlog, vfg_nlin, vfg_rlog, vfg_rlin)
__CPROVER_ensures(vfg_nlin == 1 && (vfg_nlog == 1 || (vfg_nlog == 0 && targets->log_targets == NULL)))
__CPROVER_ensures((VF_RET != 0) == ((vfg_nlog == 1 && vfg_rlog != 0) || vfg_rlin != 0))
;
double ct_last(coco_observer_targets_t *targets)
__CPROVER_assigns()
__CPROVER_ensures(!targets->use_log_targets ==> VF_SAME(VF_RET, targets->lin_targets->value))
__CPROVER_ensures(targets->use_log_targets ==> (VF_SAME(VF_RET, targets->lin_targets->value) || VF_SAME(VF_RET, targets->log_targets->value)))
__CPROVER_ensures((targets->use_log_targets && !VF_NAN(targets->lin_targets->value) && !VF_NAN(targets->log_targets->value)) ==> (VF_RET <= targets->lin_targets->value && VF_RET <= targets->log_targets->value))
;
void h_ev(void) {
  coco_observer_evaluations_t *e = VF_OBJ(coco_observer_evaluations_t);
  size_t n = nd_size(); int r;
#ifdef T_FIRST
  vfg_K = nd_size(); vfg_set = 0;
  r = coco_observer_evaluations_trigger_first(e, n); if (nd_int()) vf_d2s(nd_double());
#elif defined(T_SECOND)
  { size_t b = nd_size(); VF_ASSUME(b > 0 && b <= VF_NMAX); e->base_count = b; e->base_evaluations = VF_ARR(size_t, b); }
  r = coco_observer_evaluations_trigger_second(e, n); if (nd_int()) vf_d2s(nd_double());
  if (r && e->base_index == 3) VF_REACH("next base value");
  if (r && e->base_index == 0 && e->exponent2 == 2) VF_REACH("wrap around");
#else
  vfg_n1 = vfg_n2 = 0; vfg_ev = n;
  r = coco_observer_evaluations_trigger(e, n);
  if (vfg_rlog && vfg_rlin) VF_REACH("both fire");
#endif
  if (r) VF_REACH("fires"); else VF_REACH("does not fire");
}
void h_tg(void) {
  double v = nd_double(); int r = 0;
  vfg_nlog = vfg_nlin = 0; vfg_given = v;
#if defined(T_LOG)
  { coco_observer_log_targets_t *t = VF_OBJ(coco_observer_log_targets_t); if (nd_int()) t = NULL; r = coco_observer_log_targets_trigger(t, v);
    if (r && v < 0) VF_REACH("negative value fires"); if (r && v == 0) VF_REACH("zero fires"); if (t == NULL) VF_REACH("no targets"); }
#elif defined(T_LIN)
  { coco_observer_lin_targets_t *t = VF_OBJ(coco_observer_lin_targets_t); r = coco_observer_lin_targets_trigger(t, v); if (nd_int()) vf_ru(v, v); }
#else
  { coco_observer_targets_t *t = VF_OBJ(coco_observer_targets_t);
    t->lin_targets = VF_OBJ(coco_observer_lin_targets_t); t->log_targets = t->use_log_targets ? VF_OBJ(coco_observer_log_targets_t) : NULL;
#if defined(T_LAST)
    v = coco_observer_targets_get_last_target(t); r = v < 0; if (t->use_log_targets) VF_REACH("log targets");
#else
    r = coco_observer_targets_trigger(t, v); if (vfg_rlog && vfg_rlin) VF_REACH("both fire");
#endif
  }
#endif
  if (r) VF_REACH("fires"); else VF_REACH("does not fire");
}
