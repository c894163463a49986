/* Contracts on the bbob logger (logger_bbob.c): transparency of the observed problem and what is recorded when. */
#define NDEBUG
#include "vf.h"
#include "ghost.h"
#include "um.h"
#undef fprintf
#define fprintf(f, ...) vf_fprintf(f)
static void vf_fprintf(FILE *f);
static size_t vfg_calls, vfg_n, vfg_m, vfg_c, vfg_dat, vfg_tdat, vfg_rdat, vfg_mdat, vfg_tt, vfg_et, vfg_nf, vfg_cl_info, vfg_cl_dat, vfg_cl_tdat, vfg_cl_rdat, vfg_cl_mdat, vfg_pr, vfg_rec;
static const double *vfg_x;
static double *vfg_bs, *vfg_br;
static double vfg_yJ, vfg_y0, vfg_sum, vfg_oldbest, vfg_xK, vfg_oldK, vfg_out;
static int vfg_never = 0;
static int vfg_rtt, vfg_ret_, vfg_set;
#define LOGV(v) (VF_NAN(v) ? NAN_FOR_LOGGING : VF_INF(v) ? INFINITY_FOR_LOGGING : (v))
#include "coco_random.c"
#include "coco_suite.c"
#include "coco_observer.c"
static coco_problem_t *vfg_inner;
static logger_bbob_data_t *vfg_l;
static FILE *vfg_fi, *vfg_fd, *vfg_ft, *vfg_fr, *vfg_fm;

static void vf_eval(coco_problem_t *problem, const double *x, double *y) {
  VF_ASSERT(problem == vfg_inner && x == vfg_x, "the observed problem is evaluated at the point handed in");
  vfg_calls++; __CPROVER_havoc_object(y); vfg_yJ = y[vfg_J]; vfg_y0 = y[0];
  __CPROVER_havoc_object(problem->last_noise_free_values);
  vfg_out = problem->is_noisy == 1 ? problem->last_noise_free_values[0] : vfg_y0; vfg_out = LOGV(vfg_out);
}
static void stub_cons(coco_problem_t *problem, const double *x, double *g, int update) {
  VF_ASSERT(problem == vfg_inner && x == vfg_x, "the constraints are evaluated at the point handed in");
  VF_ASSERT(update == 0, "logging does not count as a constraint evaluation");
  __CPROVER_havoc_object(g);
}
static int vf_feas(coco_problem_t *problem, const double *x, double *c) { return nd_int(); }
static void vf_init(logger_bbob_data_t *logger, int known) {
  VF_ASSERT(logger == vfg_l && !logger->is_initialized, "the files are opened once");
  logger->is_initialized = 1; logger->info_file = vfg_fi; logger->dat_file = vfg_fd; logger->tdat_file = vfg_ft; logger->rdat_file = vfg_fr; logger->mdat_file = vfg_fm;
}
static void vf_fprintf(FILE *f) { vfg_pr++; VF_ASSERT(f == vfg_fi, "only the info file is written directly"); }
static int vf_fclose(FILE *f) {
  if (f == vfg_fi) vfg_cl_info++; else if (f == vfg_fd) vfg_cl_dat++; else if (f == vfg_ft) vfg_cl_tdat++; else if (f == vfg_fr) vfg_cl_rdat++; else { VF_ASSERT(f == vfg_fm, "only the files of this logger are closed"); vfg_cl_mdat++; }
  return 0;
}
static void vf_output(FILE *f, logger_bbob_data_t *logger, const double *x, double current, double best, const double *cons) {
  VF_ASSERT(logger == vfg_l, "record of this logger");
#ifdef L_EVAL
  VF_ASSERT(x == vfg_x, "the record shows the point evaluated");
  VF_ASSERT(best == logger->best_found_value, "the record shows the best value so far");
  VF_ASSERT(logger->num_func_evaluations == vfg_nf, "the record counts the current evaluation");
  VF_ASSERT(current == vfg_out, "the record shows the value of the point evaluated (noise-free)");
#elif defined(L_FREE)
  VF_ASSERT(f == vfg_fm ? x == vfg_br : x == vfg_bs, "the final record shows the best solution");
  VF_ASSERT(f == vfg_fm ? best == logger->best_recommended_value : best == logger->best_found_value, "the final record shows the best value");
  VF_ASSERT(f == vfg_fd ? vfg_cl_dat == 0 : f == vfg_ft ? vfg_cl_tdat == 0 : f == vfg_fm ? vfg_cl_mdat == 0 : 0, "written before the file is closed");
#endif
  if (f == vfg_fd) vfg_dat++; else if (f == vfg_ft) vfg_tdat++; else if (f == vfg_fr) vfg_rdat++; else { VF_ASSERT(f == vfg_fm, "a file of this logger"); vfg_mdat++; }
}
static int vf_ttrig(coco_observer_targets_t *t, const double v) {
  VF_ASSERT(t == (vfg_rec ? vfg_l->mdat_targets : vfg_l->targets), "targets of this logger");
  vfg_tt++; vfg_rtt = nd_int(); return vfg_rtt;
}
static int vf_etrig(coco_observer_evaluations_t *e, const size_t n) {
  VF_ASSERT(e == vfg_l->evaluations && n == vfg_nf + vfg_l->num_cons_evaluations, "the trigger sees the number of function and constraint evaluations");
  vfg_et++; vfg_ret_ = nd_int(); return vfg_ret_;
}
static void vf_tfree(coco_observer_targets_t *t) { vfg_set++; }
static void vf_efree(coco_observer_evaluations_t *e) { vfg_set++; }
static void vf_free(void *p) { (void)p; }
#define L vfg_l
#define BASEV(v, known) ((known) ? ((v) >= L->optimal_value ? (v) : L->optimal_value) : (v))
void ct_evaluate(coco_problem_t *problem, const double *x, double *y)
__CPROVER_requires(vfg_calls == 0 && vfg_dat == 0 && vfg_tdat == 0 && vfg_rdat == 0 && vfg_mdat == 0 && vfg_tt == 0 && vfg_et == 0 && vfg_sum == 0 && vfg_rec == 0)
__CPROVER_assigns(vfg_calls, vfg_dat, vfg_tdat, vfg_rdat, vfg_mdat, vfg_tt, vfg_et, vfg_rtt, vfg_ret_, vfg_yJ, vfg_y0, vfg_sum, vfg_out, __CPROVER_object_whole(vfg_inner->last_noise_free_values), __CPROVER_object_whole(y), __CPROVER_object_whole(L->best_found_solution), __CPROVER_object_whole(L))
__CPROVER_ensures(L->best_found_solution == vfg_bs && L->best_recommended_solution == vfg_br && VF_SAME(L->best_recommended_value, VF_OLD(L->best_recommended_value)) && L->last_logged_eval_mdat == VF_OLD(L->last_logged_eval_mdat) && L->optimal_value == VF_OLD(L->optimal_value))
/* transparent */
__CPROVER_ensures(vfg_calls == 1 && VF_SAME(y[vfg_J], vfg_yJ))
/* counted once; constraint evaluations as counted by the problem */
__CPROVER_ensures(L->num_func_evaluations == VF_OLD(L->num_func_evaluations) + 1 && L->num_cons_evaluations == problem->evaluations_constraints)
/* the best value is the running minimum, and the best solution belongs to it */
__CPROVER_ensures(VF_OLD(L->num_func_evaluations) > 0 ==> !(L->best_found_value > VF_OLD(L->best_found_value)))
__CPROVER_ensures((VF_OLD(L->num_func_evaluations) == 0 || L->best_found_value < vfg_oldbest) ==> VF_SAME(L->best_found_solution[vfg_K], vfg_xK))
__CPROVER_ensures((VF_OLD(L->num_func_evaluations) > 0 && !(L->best_found_value < vfg_oldbest)) ==> VF_SAME(L->best_found_solution[vfg_K], vfg_oldK))
#ifdef L_VAL
__CPROVER_ensures(vfg_c == 0 ==> !(L->best_found_value > BASEV(vfg_out, problem->is_opt_known)))
__CPROVER_ensures((vfg_c == 0 && VF_OLD(L->num_func_evaluations) == 0) ==> L->best_found_value == BASEV(vfg_out, problem->is_opt_known))
__CPROVER_ensures((vfg_c == 0 && L->best_found_value != vfg_oldbest) ==> L->best_found_value == BASEV(vfg_out, problem->is_opt_known))
#endif
/* .dat: the first evaluation, and an improvement that reaches a target */
__CPROVER_ensures(vfg_dat == ((VF_OLD(L->num_func_evaluations) == 0 || (L->best_found_value < vfg_oldbest && vfg_tt == 1 && vfg_rtt != 0)) ? 1 : 0))
__CPROVER_ensures((VF_OLD(L->num_func_evaluations) > 0 && L->best_found_value < vfg_oldbest) ==> vfg_tt == 1)
__CPROVER_ensures((VF_OLD(L->num_func_evaluations) > 0 && !(L->best_found_value < vfg_oldbest)) ==> vfg_tt == 0)
__CPROVER_ensures(L->last_logged_eval_dat == (vfg_dat ? L->num_func_evaluations : VF_OLD(L->last_logged_eval_dat)))
/* .tdat: every evaluation number that triggers */
__CPROVER_ensures(vfg_et == 1 && vfg_tdat == (vfg_ret_ != 0 ? 1 : 0))
__CPROVER_ensures(L->last_logged_eval_tdat == (vfg_tdat ? L->num_func_evaluations : VF_OLD(L->last_logged_eval_tdat)))
/* .rdat: the first evaluation after a restart */
__CPROVER_ensures(vfg_rdat == (VF_OLD(L->algorithm_restarted) ? 1 : 0) && L->algorithm_restarted == 0)
__CPROVER_ensures(vfg_mdat == 0 && L->is_initialized)
;
void ct_recommend(coco_problem_t *problem, const double *x)
__CPROVER_requires(vfg_calls == 0 && vfg_dat == 0 && vfg_tdat == 0 && vfg_rdat == 0 && vfg_mdat == 0 && vfg_tt == 0 && vfg_sum == 0 && vfg_rec == 1)
/* frame: no evaluation is counted and the best found value and solution stay */
__CPROVER_assigns(vfg_calls, vfg_dat, vfg_tdat, vfg_rdat, vfg_mdat, vfg_tt, vfg_rtt, vfg_yJ, vfg_y0, vfg_sum, vfg_out, __CPROVER_object_whole(vfg_inner->last_noise_free_values), __CPROVER_object_whole(L->best_recommended_solution),
  L->is_initialized, L->info_file, L->dat_file, L->tdat_file, L->rdat_file, L->mdat_file, L->best_recommended_value, L->last_logged_eval_mdat)
__CPROVER_ensures(vfg_calls == 1 && vfg_dat == 0 && vfg_tdat == 0 && vfg_rdat == 0 && L->is_initialized)
__CPROVER_ensures(!(L->best_recommended_value > VF_OLD(L->best_recommended_value)))
__CPROVER_ensures(L->best_recommended_value < vfg_oldbest ==> VF_SAME(L->best_recommended_solution[vfg_K], vfg_xK))
__CPROVER_ensures(!(L->best_recommended_value < vfg_oldbest) ==> VF_SAME(L->best_recommended_solution[vfg_K], vfg_oldK))
__CPROVER_ensures(vfg_mdat == ((L->best_recommended_value < vfg_oldbest && vfg_tt == 1 && vfg_rtt != 0) ? 1 : 0))
__CPROVER_ensures(L->best_recommended_value < vfg_oldbest ==> vfg_tt == 1)
;
void ct_free(void *stuff)
__CPROVER_requires(vfg_dat == 0 && vfg_tdat == 0 && vfg_rdat == 0 && vfg_mdat == 0 && vfg_cl_info == 0 && vfg_cl_dat == 0 && vfg_cl_tdat == 0 && vfg_cl_rdat == 0 && vfg_cl_mdat == 0 && vfg_pr == 0 && vfg_set == 0)
__CPROVER_assigns(vfg_dat, vfg_tdat, vfg_rdat, vfg_mdat, vfg_cl_info, vfg_cl_dat, vfg_cl_tdat, vfg_cl_rdat, vfg_cl_mdat, vfg_pr, vfg_set,
  __CPROVER_object_whole(L);
  L->observer != NULL && L->observer->data != NULL : ((observer_bbob_data_t *)L->observer->data)->observed_problem)
/* every open file is closed exactly once */
__CPROVER_ensures(vfg_cl_info == (VF_OLD(L->info_file) != NULL) && vfg_cl_dat == (VF_OLD(L->dat_file) != NULL) && vfg_cl_tdat == (VF_OLD(L->tdat_file) != NULL) && vfg_cl_rdat == (VF_OLD(L->rdat_file) != NULL) && vfg_cl_mdat == (VF_OLD(L->mdat_file) != NULL))
__CPROVER_ensures(L->info_file == NULL && L->dat_file == NULL && L->tdat_file == NULL && L->rdat_file == NULL && L->mdat_file == NULL)
/* the last evaluation is on record in both files */
__CPROVER_ensures(vfg_dat == ((VF_OLD(L->dat_file) != NULL && L->num_func_evaluations != L->last_logged_eval_dat) ? 1 : 0))
__CPROVER_ensures(vfg_tdat == ((VF_OLD(L->tdat_file) != NULL && L->num_func_evaluations != L->last_logged_eval_tdat) ? 1 : 0))
__CPROVER_ensures(vfg_rdat == 0 && vfg_pr == (VF_OLD(L->info_file) != NULL))
/* the observer may observe the next problem */
__CPROVER_ensures((L->observer != NULL && L->observer->is_active == 1 && L->observer->data != NULL) ==> ((observer_bbob_data_t *)L->observer->data)->observed_problem == NULL)
;
static double *mk_vec(size_t n) { return VF_ARR(double, n); }
static FILE *mk_file(void) { return (FILE *)VF_ARR(char, 8); }
void h_log(void) {
  size_t n = nd_size(), c = nd_size(), m = nd_size();
  coco_problem_t *p = VF_OBJ(coco_problem_t), *q = VF_OBJ(coco_problem_t);
  coco_problem_transformed_data_t *t = VF_OBJ(coco_problem_transformed_data_t);
  double *x, *y;
  VF_ASSUME(n > 0 && n <= VF_NMAX && c <= VF_NMAX && m > 0 && m <= VF_NMAX);
  vfg_l = VF_OBJ(logger_bbob_data_t);
  vfg_fi = mk_file(); vfg_fd = mk_file(); vfg_ft = mk_file(); vfg_fr = mk_file(); vfg_fm = mk_file();
  p->number_of_variables = q->number_of_variables = n; p->number_of_objectives = q->number_of_objectives = m; p->number_of_constraints = q->number_of_constraints = c;
  q->evaluate_constraint = stub_cons; p->data = t; t->inner_problem = q; t->data = vfg_l; vfg_inner = q; vfg_n = n; vfg_m = m; vfg_c = c;
  q->last_noise_free_values = mk_vec(m);
  p->is_tainted = q->is_tainted = 0;
  if (vfg_l->is_initialized) { vfg_l->info_file = vfg_fi; vfg_l->dat_file = vfg_fd; vfg_l->tdat_file = vfg_ft; vfg_l->rdat_file = vfg_fr; vfg_l->mdat_file = vfg_fm; }
  else { vfg_l->info_file = vfg_l->dat_file = vfg_l->tdat_file = vfg_l->rdat_file = vfg_l->mdat_file = NULL; }
  vfg_l->best_found_solution = mk_vec(n); vfg_l->best_recommended_solution = mk_vec(n); vfg_bs = vfg_l->best_found_solution; vfg_br = vfg_l->best_recommended_solution;
  vfg_l->targets = VF_OBJ(coco_observer_targets_t); vfg_l->mdat_targets = VF_OBJ(coco_observer_targets_t); vfg_l->evaluations = VF_OBJ(coco_observer_evaluations_t);
  vfg_K = nd_size(); vfg_J = nd_size(); VF_ASSUME(vfg_K < n && vfg_J < m);
  vfg_calls = vfg_dat = vfg_tdat = vfg_rdat = vfg_mdat = vfg_tt = vfg_et = 0; vfg_sum = 0; vfg_set = 0; vfg_pr = 0; vfg_cl_info = vfg_cl_dat = vfg_cl_tdat = vfg_cl_rdat = vfg_cl_mdat = 0;
  #ifdef L_VAL
  VF_ASSUME(c == 0);
#endif
  vfg_nf = vfg_l->num_func_evaluations + 1;
  VF_ASSUME(VF_FIN(vfg_l->optimal_value) && vfg_l->num_func_evaluations < 1000000000000ul && p->evaluations_constraints < 1000000000000ul);
  x = mk_vec(n); y = mk_vec(m); vfg_x = x; vfg_xK = x[vfg_K];
#if defined(L_EVAL)
  vfg_rec = 0; vfg_oldK = vfg_l->best_found_solution[vfg_K]; vfg_oldbest = vfg_l->best_found_value;
  VF_ASSUME(VF_FIN(vfg_l->best_found_value));
  logger_bbob_evaluate(p, x, y);
  if (vfg_dat && vfg_tdat && vfg_rdat && vfg_K > 2 && c != 1) VF_REACH("all records");
  if (!vfg_dat && !vfg_tdat) VF_REACH("no record");
  if (q->is_noisy == 1) VF_REACH("noisy");
  if (p->is_opt_known && vfg_l->best_found_value < vfg_oldbest) VF_REACH("improvement, known optimum");
  if (!p->is_opt_known && c == 0) VF_REACH("unknown optimum");
#elif defined(L_REC)
  vfg_rec = 1; vfg_oldK = vfg_l->best_recommended_solution[vfg_K]; vfg_oldbest = vfg_l->best_recommended_value;
  VF_ASSUME(VF_FIN(vfg_l->best_recommended_value));
  logger_bbob_recommend(p, x);
  if (vfg_mdat && c > 2) VF_REACH("recorded");
  if (!vfg_mdat) VF_REACH("not recorded");
#elif defined(L_FREE)
  VF_ASSUME(VF_FIN(vfg_l->best_found_value) && VF_FIN(vfg_l->best_recommended_value));
  if (nd_int()) vfg_l->observer = NULL; else { vfg_l->observer = VF_OBJ(coco_observer_t); vfg_l->observer->data = nd_int() ? NULL : VF_OBJ(observer_bbob_data_t); }
  logger_bbob_free(vfg_l);
  if (vfg_dat && vfg_tdat && vfg_mdat) VF_REACH("final records");
  if (vfg_cl_dat && !vfg_dat) VF_REACH("no final record");
  if (vfg_l->observer != NULL && vfg_l->observer->data != NULL) VF_REACH("observer");
#endif
  vfg_never = 0;
  if (vfg_never) { vf_eval(q, x, y); vf_feas(q, x, NULL); vf_init(vfg_l, 1); vf_output(NULL, NULL, NULL, 0, 0, NULL); vf_ttrig(NULL, 0); vf_etrig(NULL, 0); vf_fclose(NULL); vf_tfree(NULL); vf_efree(NULL); vf_free(NULL); }
}
