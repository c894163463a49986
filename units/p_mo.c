/* Contracts on the bi-objective helpers (mo_utilities.c), the orderings of the archive trees, and the bi-objective logger. */
#define NDEBUG
#include "vf.h"
#include "ghost.h"
#include "um.h"
#define fabs(v) __CPROVER_fabs(v)
#undef fprintf
#define fprintf(f, ...) vf_fprintf(f)
static void vf_fprintf(FILE *f);
#define fflush(f) ((void)0)
static size_t vfg_w1, vfg_w2, vfg_wr, vfg_calls, vfg_nf, vfg_created, vfg_updated, vfg_treeout, vfg_out, vfg_freed, vfg_purged, vfg_dat, vfg_tdat, vfg_rdat, vfg_tt, vfg_et, vfg_n, vfg_m, vfg_c, vfg_rd;
static const double *vfg_x; static double *vfg_y, *vfg_gc, *vfg_nx, *vfg_ny;
static double vfg_yJ, vfg_v0, vfg_v1, vfg_dist, vfg_hyp, vfg_prev, vfg_xK;
struct avl_node; static struct avl_node *vfg_node, *vfg_head; static void *vfg_old; static size_t vfg_ins, vfg_bins; static int vfg_pend, vfg_bpend, vfg_lastdom, vfg_last_end, vfg_found, vfg_inserted_ok; static int vfg_lt1, vfg_lt2, vfg_never, vfg_upd, vfg_rtt, vfg_ret_, vfg_feas;
#ifdef M_DOM
/* "almost equal" (see the proof of coco_double_almost_equal) is an uninterpreted relation here */
_Bool __CPROVER_uninterpreted_eq(double, double);
#define EQ(a, b) (__CPROVER_uninterpreted_eq(a, b) || __CPROVER_uninterpreted_eq(b, a))
#else
#define EQ(a, b) ((a) - (b) < 1e-13 && (b) - (a) < 1e-13)
#endif
#define LT(a, b) (!EQ(a, b) && (a) < (b))
#define IN(v) (EQ(v, 0) || EQ(v, 1) || ((v) > 0 && (v) < 1))
#include "coco_random.c"
#include "coco_suite.c"
#include "coco_observer.c"
#include "coco_archive.c"
static double *mk_vec(size_t n) { return VF_ARR(double, n); }

#if defined(M_DOM)
static int vf_eq(const double a, const double b, const double p) { VF_ASSERT(p == 1e-13, "precision of the comparison"); return EQ(a, b); }
/* 1: first dominates, -1: second dominates, 0: incomparable, -2: equal */
int ct_dom(const double *y1, const double *y2, const size_t m)
__CPROVER_requires(m <= VF_NMAX && __CPROVER_r_ok(y1, m * sizeof(double)) && __CPROVER_r_ok(y2, m * sizeof(double)))
__CPROVER_assigns(vfg_w1, vfg_w2)
__CPROVER_ensures(VF_RET == 1 || VF_RET == -1 || VF_RET == 0 || VF_RET == -2)
/* vfg_w1 (vfg_w2) is set by ghost code at an index at which the first (second) vector is better; vfg_lt1, vfg_lt2: the relations at the arbitrary index vfg_K */
__CPROVER_ensures((VF_RET == 1 || VF_RET == 0) ==> vfg_w1)
__CPROVER_ensures((VF_RET == -1 || VF_RET == 0) ==> vfg_w2)
__CPROVER_ensures(((VF_RET == 1 || VF_RET == -2) && vfg_K < m) ==> !vfg_lt2)
__CPROVER_ensures(((VF_RET == -1 || VF_RET == -2) && vfg_K < m) ==> !vfg_lt1)
;
void h(void) {
  size_t m = nd_size(); double *a, *b; int r;
  VF_ASSUME(m > 0 && m <= VF_NMAX); vfg_K = nd_size(); a = mk_vec(m); b = mk_vec(m); vfg_w1 = vfg_w2 = 0; VF_ASSUME(vfg_K < m); vfg_lt1 = LT(a[vfg_K], b[vfg_K]); vfg_lt2 = LT(b[vfg_K], a[vfg_K]);
  r = mo_get_dominance(a, b, m);
  if (r == 1 && m > 3) VF_REACH("dominates"); if (r == -1) VF_REACH("dominated"); if (r == 0) VF_REACH("incomparable"); if (r == -2) VF_REACH("equal");
  vfg_never = 0; if (vfg_never) vf_eq(0, 0, 0);
}
#elif defined(M_EQ)
int ct_eq(const double a, const double b, const double p)
__CPROVER_assigns()
__CPROVER_ensures((VF_RET != 0) == (__CPROVER_fabs(a - b) < p))
;
void h(void) { double a = nd_double(), b = nd_double(), p = nd_double(); int r; VF_ASSUME(p > 0); r = coco_double_almost_equal(a, b, p); if (r && a != b) VF_REACH("close"); if (!r) VF_REACH("apart"); }
#elif defined(M_ROI)
int ct_roi(const double *y, const size_t m)
__CPROVER_requires(m <= VF_NMAX && __CPROVER_r_ok(y, m * sizeof(double)))
__CPROVER_assigns(vfg_wr)
__CPROVER_ensures(VF_RET == 0 || VF_RET == 1)
__CPROVER_ensures((VF_RET == 1 && vfg_K < m) ==> IN(y[vfg_K]))
__CPROVER_ensures(VF_RET == 0 ==> (vfg_wr < m && !IN(y[vfg_wr])))
;
void h(void) { size_t m = nd_size(); double *y; int r; VF_ASSUME(m > 0 && m <= VF_NMAX); vfg_K = nd_size(); y = mk_vec(m); r = mo_is_within_ROI(y, m); if (r && m > 2) VF_REACH("inside"); if (!r) VF_REACH("outside"); }
#elif defined(M_DIST)
static int vf_roi(const double *y, const size_t m) { vfg_upd = nd_int(); return vfg_upd; }
double ct_dist(const double *y, const size_t m)
__CPROVER_assigns(vfg_upd)
__CPROVER_ensures(vfg_upd ==> VF_RET == 0)
__CPROVER_ensures((!vfg_upd && y[0] - 1 > 0 && y[1] - 1 > 0) ==> VF_SAME(VF_RET, sqrt(pow(y[0] - 1, 2) + pow(y[1] - 1, 2))))
__CPROVER_ensures((!vfg_upd && y[0] - 1 > 0 && !(y[1] - 1 > 0)) ==> VF_RET == y[0] - 1)
__CPROVER_ensures((!vfg_upd && !(y[0] - 1 > 0)) ==> VF_SAME(VF_RET, y[1] - 1))
;
void h(void) { double *y = mk_vec(2), r; VF_ASSUME(VF_FIN(y[0]) && VF_FIN(y[1])); r = mo_get_distance_to_ROI(y, 2); if (vfg_upd) VF_REACH("inside"); else if (y[0] > 2 && y[1] > 2) VF_REACH("corner"); else VF_REACH("side");
  vfg_never = 0; if (vfg_never) vf_roi(y, 2); }
#elif defined(M_NORM)
#define NV_(i) (vfg_v##i < 0 ? 0.0 : vfg_v##i)
void h(void) {
  double *y = mk_vec(2), *lo = mk_vec(2), *hi = mk_vec(2), *z, a, b; double y0, y1;
  VF_ASSUME(VF_FIN(y[0]) && VF_FIN(y[1]) && VF_FIN(lo[0]) && VF_FIN(lo[1]) && VF_FIN(hi[0]) && VF_FIN(hi[1]) && hi[0] - lo[0] > 5e-13 && hi[1] - lo[1] > 5e-13);
  y0 = y[0]; y1 = y[1];
  z = mo_normalize(y, lo, hi, 2);
  VF_ASSERT(y[0] == y0 && y[1] == y1, "the objective vector is not modified");
  VF_ASSERT(!(z[0] < 0) && !(z[1] < 0), "normalised values are not negative");
  VF_ASSERT(!(EQ(z[0], 0) && z[1] < 1) && !(EQ(z[1], 0) && z[0] < 1), "the extreme points are not dominated");
  if (z[0] > 0.5 && z[0] < 1 && z[1] > 0.5) VF_REACH("inside");
  if (z[0] == 0) VF_REACH("extreme");
}
#elif defined(M_CMP)
int ct_cmp(const T *item1, const T *item2, void *userdata)
__CPROVER_assigns()
#ifdef BY_EVAL
__CPROVER_ensures(VF_RET == (item1->evaluation_number < item2->evaluation_number ? -1 : item1->evaluation_number > item2->evaluation_number ? 1 : 0))
#else
__CPROVER_ensures(VF_RET == (EQ(item1->normalized_y[1], item2->normalized_y[1]) ? 0 : item1->normalized_y[1] < item2->normalized_y[1] ? -1 : 1))
#endif
;
void h(void) { T *a = VF_OBJ(T), *b = VF_OBJ(T); int r; a->normalized_y = mk_vec(2); b->normalized_y = mk_vec(2); r = F(a, b, NULL); if (r == 0) VF_REACH("equal"); if (r < 0) VF_REACH("less"); if (r > 0) VF_REACH("greater"); }
#elif defined(M_NODE)
static double *vf_norm(const double *y, const double *ideal, const double *nadir, const size_t m) { VF_ASSERT(VF_SAME(y[vfg_J], vfg_yJ) && m == vfg_m, "the objective vector of the node is normalised"); return vfg_y; }
static int vf_roi(const double *y, const size_t m) { VF_ASSERT(y == vfg_y, "normalised vector"); vfg_upd = nd_int(); return vfg_upd; }
logger_biobj_avl_item_t *ct_node(const coco_problem_t *p, const double *x, const double *y, const double *g, const size_t e, const size_t n, const size_t m, const size_t c)
__CPROVER_assigns(vfg_upd, vfg_feas)
__CPROVER_ensures(VF_SAME(VF_RET->x[vfg_K], vfg_xK) && VF_SAME(VF_RET->y[vfg_J], vfg_yJ))
__CPROVER_ensures(VF_RET->evaluation_number == e && VF_RET->normalized_y == vfg_y && VF_RET->within_ROI == vfg_upd && VF_RET->indicator_contribution[0] == 0)
__CPROVER_ensures((VF_RET->is_feasible != 0) == (vfg_feas != 0))
;
void h(void) {
  size_t n = nd_size(), m = nd_size(), c = nd_size(), e = nd_size(); coco_problem_t *p = VF_OBJ(coco_problem_t); double *x, *y, *g; logger_biobj_avl_item_t *it; double yJ;
  VF_ASSUME(n > 0 && n <= VF_NMAX && m > 0 && m <= VF_NMAX && c <= VF_NMAX);
  vfg_m = m; vfg_K = nd_size(); vfg_J = nd_size(); VF_ASSUME(vfg_K < n && vfg_J < m); vfg_calls = 0;
  x = mk_vec(n); y = mk_vec(m); g = mk_vec(c); vfg_y = mk_vec(m); vfg_gc = g; vfg_wr = nd_size(); vfg_feas = 1;
  vfg_xK = x[vfg_K]; vfg_yJ = y[vfg_J];
  it = logger_biobj_node_create(p, x, y, g, e, n, m, c);
  if (it->is_feasible && c > 2) VF_REACH("feasible"); if (!it->is_feasible) VF_REACH("infeasible"); if (c == 0) VF_REACH("unconstrained");
  vfg_never = 0; if (vfg_never) { vf_norm(y, y, y, m); vf_roi(y, m); }
}
#elif defined(M_EVAL)
static coco_problem_t *vfg_inner; static logger_biobj_data_t *vfg_l; static logger_biobj_avl_item_t *vfg_it; static FILE *vfg_fa;
static void vf_fprintf(FILE *f) { VF_ASSERT(0, "nothing is written directly"); }
static void vf_eval(coco_problem_t *problem, const double *x, double *y) {
  VF_ASSERT(problem == vfg_inner && x == vfg_x, "the observed problem is evaluated at the point handed in");
  vfg_calls++; __CPROVER_havoc_object(y); vfg_yJ = y[vfg_J];
}
static void stub_cons(coco_problem_t *problem, const double *x, double *g, int update) {
  VF_ASSERT(problem == vfg_inner && x == vfg_x && update == 0, "constraints of the point handed in; logging does not count as a constraint evaluation");
  __CPROVER_havoc_object(g);
}
static logger_biobj_avl_item_t *vf_create(const coco_problem_t *problem, const double *x, const double *y, const double *cons, const size_t e, const size_t n, const size_t m, const size_t c) {
  VF_ASSERT(problem == vfg_inner && x == vfg_x && y == vfg_y && vfg_calls == 1 && e == vfg_nf && n == vfg_n && m == vfg_m && c == vfg_c, "the solution archived is the one evaluated");
  vfg_created++; return vfg_it;
}
static int vf_update(logger_biobj_data_t *l, logger_biobj_avl_item_t *it) { VF_ASSERT(l == vfg_l && it == vfg_it && vfg_created == 1, "the archive is updated with the solution"); vfg_updated++; vfg_upd = nd_int(); return vfg_upd; }
static size_t vf_treeout(FILE *f, const avl_tree_t *t, const size_t n, const size_t ni, const size_t m, const int lv, const int px, const int pf, const int di) {
  VF_ASSERT(f == vfg_fa && t == vfg_l->buffer_tree && n == vfg_n && m == vfg_m && vfg_updated == 1 && vfg_purged == 0, "the buffered solutions are written"); vfg_treeout++; return 0; }
static avl_tree_t *vf_purge(avl_tree_t *t) { VF_ASSERT(t == vfg_l->buffer_tree && vfg_treeout == 1, "the buffer is emptied after it was written"); vfg_purged++; return t; }
static void vf_out(logger_biobj_data_t *l, const int u, const logger_biobj_avl_item_t *it) { VF_ASSERT(l == vfg_l && (u != 0) == (vfg_upd != 0) && vfg_updated == 1, "output after the update"); vfg_out++; }
static void vf_nfree(logger_biobj_avl_item_t *it, void *u) { }
void ct_eval(coco_problem_t *problem, const double *x, double *y)
__CPROVER_requires(vfg_calls == 0 && vfg_created == 0 && vfg_updated == 0 && vfg_treeout == 0 && vfg_out == 0 && vfg_purged == 0)
__CPROVER_assigns(vfg_calls, vfg_yJ, vfg_created, vfg_updated, vfg_upd, vfg_treeout, vfg_purged, vfg_out, __CPROVER_object_whole(y), vfg_l->num_func_evaluations, vfg_l->num_cons_evaluations)
__CPROVER_ensures(vfg_calls == 1 && VF_SAME(y[vfg_J], vfg_yJ))
__CPROVER_ensures(vfg_l->num_func_evaluations == VF_OLD(vfg_l->num_func_evaluations) + 1 && vfg_l->num_cons_evaluations == problem->evaluations_constraints)
__CPROVER_ensures(vfg_created == 1 && vfg_updated == 1 && vfg_out == 1)
__CPROVER_ensures(vfg_treeout == ((vfg_upd != 0 && vfg_l->log_nondom_mode == LOG_NONDOM_ALL) ? 1 : 0) && vfg_purged == vfg_treeout)
;
void h(void) {
  size_t n = nd_size(), c = nd_size(), m = nd_size();
  coco_problem_t *p = VF_OBJ(coco_problem_t), *q = VF_OBJ(coco_problem_t);
  coco_problem_transformed_data_t *t = VF_OBJ(coco_problem_transformed_data_t); double *x, *y;
  VF_ASSUME(n > 0 && n <= VF_NMAX && c <= VF_NMAX && m > 0 && m <= VF_NMAX);
  vfg_l = VF_OBJ(logger_biobj_data_t); vfg_fa = (FILE *)VF_ARR(char, 8); vfg_it = VF_OBJ(logger_biobj_avl_item_t); vfg_l->adat_file = vfg_fa;
  p->number_of_variables = q->number_of_variables = n; p->number_of_objectives = q->number_of_objectives = m; p->number_of_constraints = q->number_of_constraints = c;
  vfg_l->number_of_variables = n; vfg_l->number_of_objectives = m; vfg_l->buffer_tree = VF_OBJ(avl_tree_t);
  q->evaluate_constraint = stub_cons; p->data = t; t->inner_problem = q; t->data = vfg_l; vfg_inner = q; vfg_n = n; vfg_m = m; vfg_c = c;
  vfg_J = nd_size(); VF_ASSUME(vfg_J < m && vfg_l->num_func_evaluations < 1000000000000ul); vfg_nf = vfg_l->num_func_evaluations + 1;
  vfg_calls = vfg_created = vfg_updated = vfg_treeout = vfg_out = vfg_purged = 0;
  x = mk_vec(n); y = mk_vec(m); vfg_x = x; vfg_y = y;
  logger_biobj_evaluate(p, x, y);
  if (vfg_treeout) VF_REACH("written"); if (!vfg_upd && c > 2) VF_REACH("no update");
  vfg_never = 0; if (vfg_never) { vf_eval(q, x, y); vf_create(q, x, y, x, 1, n, m, c); vf_update(vfg_l, vfg_it); vf_treeout(vfg_fa, NULL, 1, 1, 1, 1, 1, 1, 1); vf_purge(NULL); vf_out(NULL, 0, NULL); vf_nfree(NULL, NULL); }
}
#elif defined(M_OUT)
static logger_biobj_data_t *vfg_l; static logger_biobj_indicator_t *vfg_ind;
static void vf_fprintf(FILE *f) {
  if (f == vfg_ind->dat_file) vfg_dat++;
  else if (f == vfg_ind->tdat_file) { if (vfg_et == 0) vfg_rd++; else { vfg_tdat++; VF_ASSERT(vfg_ret_ != 0, "written when the trigger fires"); } }
  else { VF_ASSERT(f == vfg_ind->rdat_file, "a file of this logger"); vfg_rdat++; } }
static int vf_ttrig(coco_observer_targets_t *t, const double v) { VF_ASSERT(t == vfg_ind->targets && VF_SAME(v, vfg_ind->overall_value), "the trigger sees the overall indicator value"); vfg_tt++; vfg_rtt = nd_int(); return vfg_rtt; }
static int vf_etrig(coco_observer_evaluations_t *e, const size_t n) { VF_ASSERT(e == vfg_ind->evaluations, "triggers of this indicator"); VF_ASSERT(n <= vfg_nf && n > vfg_l->previous_evaluations, "evaluation numbers not seen before"); if (n == vfg_nf) vfg_et++; vfg_ret_ = nd_int(); return vfg_ret_; }
static double vf_dist(const double *y, const size_t m) { return vfg_dist; }
static double vf_last(coco_observer_targets_t *t) { return nd_double(); }
static int vf_strcmp(const char *a, const char *b) { return 0; }
void ct_out(logger_biobj_data_t *logger, const int update_performed, const logger_biobj_avl_item_t *node_item)
__CPROVER_requires(vfg_dat == 0 && vfg_tdat == 0 && vfg_rdat == 0 && vfg_tt == 0 && vfg_et == 0 && vfg_rd == 0)
__CPROVER_assigns(vfg_dat, vfg_tdat, vfg_rdat, vfg_tt, vfg_et, vfg_rtt, vfg_ret_, vfg_rd, __CPROVER_object_whole(vfg_ind), logger->algorithm_restarted)
__CPROVER_ensures(VF_SAME(vfg_ind->current_value, VF_OLD(vfg_ind->current_value)) && VF_SAME(vfg_ind->best_value, VF_OLD(vfg_ind->best_value)))
__CPROVER_ensures(!logger->compute_indicators ==> (vfg_dat == 0 && vfg_tdat == 0 && vfg_rdat == 0))
__CPROVER_ensures(logger->algorithm_restarted == 0)
/* no update: the indicator value stays */
__CPROVER_ensures((!update_performed && vfg_nf > 1) ==> (VF_SAME(vfg_ind->overall_value, VF_OLD(vfg_ind->overall_value)) && vfg_tt == 0 && vfg_dat == 0))
__CPROVER_ensures((logger->compute_indicators && update_performed) ==> (vfg_tt == 1 && VF_SAME(vfg_ind->overall_value, vfg_ind->best_value - vfg_ind->current_value + vfg_ind->additional_penalty)))
/* penalty: minimal distance while no solution is in the region of interest, 0 afterwards */
__CPROVER_ensures((logger->compute_indicators && update_performed && !EQ(vfg_ind->current_value, 0)) ==> vfg_ind->additional_penalty == 0)
__CPROVER_ensures((logger->compute_indicators && update_performed && EQ(vfg_ind->current_value, 0)) ==> vfg_ind->additional_penalty == (vfg_dist < VF_OLD(vfg_ind->additional_penalty) ? vfg_dist : VF_OLD(vfg_ind->additional_penalty)))
__CPROVER_ensures(vfg_dat == ((vfg_tt == 1 && vfg_rtt != 0) ? 1 : 0))
__CPROVER_ensures(logger->compute_indicators ==> (vfg_et == 1 && vfg_tdat == (vfg_ret_ != 0 ? 1 : 0) && (vfg_ind->evaluation_logged != 0) == (vfg_ret_ != 0)))
__CPROVER_ensures(logger->compute_indicators ==> vfg_rdat == (VF_OLD(logger->algorithm_restarted) ? 1 : 0))
;
void h(void) {
  logger_biobj_avl_item_t *it = VF_OBJ(logger_biobj_avl_item_t);
  vfg_l = VF_OBJ(logger_biobj_data_t); vfg_ind = VF_OBJ(logger_biobj_indicator_t); vfg_l->indicators[0] = vfg_ind;
  it->normalized_y = mk_vec(2); vfg_l->number_of_objectives = 2;
  vfg_ind->dat_file = (FILE *)VF_ARR(char, 8); vfg_ind->tdat_file = (FILE *)VF_ARR(char, 8); vfg_ind->rdat_file = (FILE *)VF_ARR(char, 8);
  vfg_ind->targets = VF_OBJ(coco_observer_targets_t); vfg_ind->evaluations = VF_OBJ(coco_observer_evaluations_t);
  vfg_dat = vfg_tdat = vfg_rdat = vfg_tt = vfg_et = vfg_rd = 0; vfg_nf = vfg_l->num_func_evaluations; vfg_dist = nd_double();
  VF_ASSUME(vfg_dist >= 0 && VF_FIN(vfg_dist) && VF_FIN(vfg_ind->additional_penalty) && vfg_ind->additional_penalty >= 0 && VF_FIN(vfg_ind->current_value) && VF_FIN(vfg_ind->best_value));
  VF_ASSUME(vfg_nf > vfg_l->previous_evaluations && vfg_nf < 1000000000000ul);
  logger_biobj_output(vfg_l, nd_int(), it);
  if (vfg_dat && vfg_tdat && vfg_rdat) VF_REACH("all records"); if (vfg_l->compute_indicators && !vfg_dat) VF_REACH("no target");
  if (vfg_rd) VF_REACH("skipped numbers written");
  vfg_never = 0; if (vfg_never) { vf_ttrig(NULL, 0); vf_etrig(NULL, 0); vf_dist(NULL, 2); vf_last(NULL); vf_strcmp("", ""); }
}
#endif
#if defined(M_ARCH) || defined(M_TREE)
/* The list behind the tree is represented by one node object that stands for every node in turn (its successor is itself or NULL): asking for the
 * dominance relation makes it "the next node", with an arbitrary item and successor; deleting it leaves a dangling successor. */
static avl_node_t *vfg_new; static avl_tree_t *vfg_tree, *vfg_buf; static ITEM *vfg_it;
#ifdef M_TREE
static ITEM *vfg_next, *vfg_prv; static logger_biobj_indicator_t *vfg_ind; static double vfg_cur; static int vfg_hasnext, vfg_hasprev, vfg_ci;
static int vf_strcmp0(const char *a, const char *b) { return 0; }
#endif
static int vf_dom(const double *a, const double *b, const size_t m) {
  VF_ASSERT(m == 2, "two objectives"); VF_ASSERT(a == vfg_it->normalized_y, "new solution"); VF_ASSERT(b == ((ITEM *)vfg_old)->normalized_y, "the new solution is compared with the one in the archive");
  VF_ASSERT(!vfg_pend && vfg_ins == 0 && vfg_freed == 0, "a dominated solution is removed before the next one is looked at");
  VF_ASSERT(vfg_calls == 0 || vfg_lastdom >= 0, "dominated solutions are not compared further");
  if (vfg_calls < 1000) vfg_calls++; vfg_lastdom = nd_int(); VF_ASSUME(vfg_lastdom == 0 || vfg_lastdom == 1 || ((vfg_lastdom == -1 || vfg_lastdom == -2) && vfg_calls == 1 && vfg_found));
  if (vfg_lastdom == 1) { vfg_pend = 1; vfg_bpend = vfg_buf != NULL; } vfg_node->next = nd_int() ? vfg_node : NULL; vfg_last_end = vfg_node->next == NULL;
  return vfg_lastdom; }
static avl_node_t *vf_search(const avl_tree_t *t, const void *item, int *exact) { VF_ASSERT(t == vfg_tree && item == vfg_it && vfg_calls == 0, "search with the new solution"); vfg_found = nd_int() != 0; return vfg_found ? vfg_node : NULL; }
static void *vf_ndel(avl_tree_t *t, avl_node_t *n) { VF_ASSERT(t == vfg_tree && n == vfg_node && vfg_pend && vfg_lastdom == 1, "only dominated solutions are removed, once"); vfg_pend = 0; n->next = (avl_node_t *)8; return NULL; }
static void *vf_bdel(avl_tree_t *t, const void *item) { VF_ASSERT(t == vfg_buf && item == vfg_node->item && vfg_bpend && vfg_pend, "a dominated solution leaves the buffer before it is freed"); vfg_bpend = 0; return NULL; }
static avl_node_t *vf_ins(avl_tree_t *t, void *item) {
  VF_ASSERT(item == vfg_it && !vfg_pend, "the new solution is inserted after the dominated ones were removed");
  if (t == vfg_buf) { vfg_bins++; return NULL; }
  VF_ASSERT(t == vfg_tree && vfg_ins == 0 && vfg_freed == 0, "inserted once"); vfg_ins++;
  VF_ASSERT(vfg_calls == 0 || vfg_lastdom >= 0, "a weakly dominated solution is not inserted");
  VF_ASSERT(vfg_calls == 0 ? (!vfg_found && vfg_tree->head == NULL) : (vfg_lastdom == 0 && !(vfg_calls == 1 && vfg_found && !vfg_last_end)) || vfg_last_end, "every neighbour that may be dominated was looked at");
  
#if VF_CANFAIL
  vfg_inserted_ok = nd_int() != 0; return vfg_inserted_ok ? vfg_new : NULL; }
#else
  vfg_inserted_ok = 1; return vfg_new; }
#endif
static void vf_ifree(ITEM *it, void *u) { VF_ASSERT(it == vfg_it && vfg_freed == 0 && (vfg_ins == 0 || !vfg_inserted_ok), "freed once, only when not inserted"); vfg_freed++; }
#endif
#if defined(M_ARCH)
static ITEM *vf_mk(const double *y, const double *lo, const double *hi, const size_t m, const char *text) { VF_ASSERT(VF_SAME(y[0], vfg_v0) && VF_SAME(y[1], vfg_v1) && m == 2 && lo == vfg_nx && hi == vfg_ny, "the solution added"); return vfg_it; }
int ct_add(coco_archive_t *archive, const double y1, const double y2, const char *text)
__CPROVER_requires(vfg_calls == 0 && vfg_ins == 0 && vfg_freed == 0 && vfg_pend == 0)
__CPROVER_assigns(vfg_calls, vfg_ins, vfg_freed, vfg_pend, vfg_bpend, vfg_lastdom, vfg_last_end, vfg_found, vfg_inserted_ok, __CPROVER_object_whole(vfg_node), archive->is_up_to_date)
__CPROVER_ensures((VF_RET != 0) == (vfg_ins == 1 && vfg_inserted_ok) && vfg_pend == 0)
__CPROVER_ensures(vfg_freed == (VF_RET != 0 ? 0 : 1))
__CPROVER_ensures((vfg_calls > 0 && vfg_lastdom < 0) ==> (VF_RET == 0 && vfg_ins == 0))
__CPROVER_ensures(!(vfg_calls > 0 && vfg_lastdom < 0) ==> (vfg_ins == 1 && archive->is_up_to_date == 0))
__CPROVER_ensures(VF_RET == 0 && vfg_ins == 0 ==> archive->is_up_to_date == VF_OLD(archive->is_up_to_date))
;
void h(void) {
  coco_archive_t *a = VF_OBJ(coco_archive_t); int r; double y1 = nd_double(), y2 = nd_double();
  vfg_node = VF_OBJ(avl_node_t); vfg_new = VF_OBJ(avl_node_t); vfg_it = VF_OBJ(ITEM); vfg_old = VF_OBJ(ITEM); vfg_tree = VF_OBJ(avl_tree_t); vfg_buf = NULL;
  a->tree = vfg_tree; a->ideal = vfg_nx = mk_vec(2); a->nadir = vfg_ny = mk_vec(2); a->number_of_objectives = 2; vfg_it->normalized_y = mk_vec(2); ((ITEM *)vfg_old)->normalized_y = mk_vec(2);
  vfg_node->item = vfg_old; vfg_node->next = nd_int() ? vfg_node : NULL; vfg_head = vfg_tree->head = nd_int() ? vfg_node : NULL; vfg_v0 = y1; vfg_v1 = y2;
  vfg_calls = vfg_ins = vfg_freed = vfg_pend = vfg_bpend = vfg_found = vfg_lastdom = vfg_last_end = vfg_inserted_ok = 0;
  r = coco_archive_add_solution(a, y1, y2, "text");
  if (r && vfg_calls > 3) VF_REACH("inserted"); if (!r && vfg_ins == 0) VF_REACH("dominated"); if (r && vfg_calls == 0) VF_REACH("first");
  vfg_never = 0; if (vfg_never) { vf_dom(NULL, NULL, 0); vf_search(NULL, NULL, NULL); vf_ndel(NULL, NULL); vf_bdel(NULL, NULL); vf_ins(NULL, NULL); vf_ifree(NULL, NULL); vf_mk(NULL, NULL, NULL, 0, NULL); }
}
#endif
#if defined(M_NEXT)
/* the next three nodes of the list, of which at most two can be extremes; the update may start the iteration afresh */
static avl_node_t *vfg_a[5]; static avl_node_t *vfg_e1, *vfg_e2, *vfg_cur_, *vfg_hd; static int vfg_ext; static size_t vfg_updates;
static void vf_update(coco_archive_t *a) { vfg_updates++; if (!a->is_up_to_date) { a->current_solution = NULL; a->extremes_already_returned = 0; a->is_up_to_date = 1; } vfg_cur_ = vfg_updates == 1 ? a->current_solution : vfg_cur_; vfg_ext = vfg_updates == 1 ? a->extremes_already_returned : vfg_ext; }
#define ISE(n) ((n) == vfg_e1 || (n) == vfg_e2)
#define SKIP1(n) ((n) != NULL && ISE(n) ? (n)->next : (n))
#define FIRST(n) SKIP1(SKIP1(n)) /* the first node from n on that is not an extreme */
#define TXT(n) (((coco_archive_avl_item_t *)(n)->item)->text)
void h(void) {
  coco_archive_t *a = VF_OBJ(coco_archive_t); size_t i, j1 = nd_size(), j2 = nd_size(), c = nd_size(); const char *t; avl_node_t *f;
  VF_ASSUME(j1 < 5 && j2 < 5 && j1 != j2);
  for (i = 0; i < 5; i++) { coco_archive_avl_item_t *it = VF_OBJ(coco_archive_avl_item_t); it->text = VF_ARR(char, 2); VF_ASSUME(it->text[0] != 0); vfg_a[i] = VF_OBJ(avl_node_t); vfg_a[i]->item = it; }
  vfg_a[4]->next = nd_int() ? vfg_a[4] : NULL; for (i = 0; i < 4; i++) vfg_a[i]->next = nd_int() ? vfg_a[i + 1] : NULL;
  a->tree = VF_OBJ(avl_tree_t); a->tree->head = vfg_hd = vfg_a[nd_int() ? 0 : 3]; vfg_e1 = a->extreme1 = vfg_a[j1]; vfg_e2 = a->extreme2 = vfg_a[j2];
  if (j1 == 4 || j2 == 4) vfg_a[4]->next = NULL;
  if (a->extremes_already_returned) { VF_ASSUME(c < 4); a->current_solution = c == 3 ? NULL : vfg_a[c]; } else a->current_solution = nd_int() ? vfg_e2 : NULL;
  vfg_updates = 0;
  t = coco_archive_get_next_solution_text(a);
  VF_ASSERT(vfg_updates > 0, "the archive is brought up to date before");
  if (!vfg_ext && vfg_cur_ == NULL) { VF_ASSERT(t == TXT(vfg_e1) && a->current_solution == vfg_e2 && !a->extremes_already_returned, "the first extreme comes first"); VF_REACH("first"); }
  else if (!vfg_ext) { VF_ASSERT(t == TXT(vfg_e2) && a->current_solution == vfg_hd && a->extremes_already_returned, "then the second extreme, then the list from its head"); VF_REACH("second"); }
  else { f = FIRST(vfg_cur_);
    if (f == NULL) { VF_ASSERT(t[0] == 0 && a->current_solution == NULL && a->extremes_already_returned, "empty text after the last solution"); VF_REACH("end"); }
    else { VF_ASSERT(t == TXT(f) && a->current_solution == f->next && a->extremes_already_returned, "the next solution that is not an extreme"); if (f != vfg_cur_) VF_REACH("skipped"); else VF_REACH("next"); } }
  vfg_never = 0; if (vfg_never) vf_update(NULL);
}
#endif
#if defined(M_TREE)
int ct_tree(logger_biobj_data_t *logger, ITEM *node_item)
__CPROVER_requires(vfg_calls == 0 && vfg_ins == 0 && vfg_bins == 0 && vfg_freed == 0 && vfg_pend == 0 && vfg_bpend == 0)
__CPROVER_assigns(vfg_calls, vfg_ins, vfg_bins, vfg_freed, vfg_pend, vfg_bpend, vfg_lastdom, vfg_last_end, vfg_found, vfg_inserted_ok, vfg_cur, vfg_prev, vfg_node->next, vfg_ind->current_value, vfg_it->indicator_contribution[0], vfg_next->indicator_contribution[0])
__CPROVER_ensures((VF_RET != 0) == (vfg_ins == 1) && vfg_pend == 0 && vfg_bpend == 0 && vfg_bins == vfg_ins)
__CPROVER_ensures(vfg_freed == ((VF_RET != 0 || !vfg_feas) ? 0 : 1))
__CPROVER_ensures((!vfg_feas || (vfg_calls > 0 && vfg_lastdom < 0)) ==> (VF_RET == 0 && VF_SAME(vfg_ind->current_value, VF_OLD(vfg_ind->current_value))))
__CPROVER_ensures((vfg_feas && !(vfg_calls > 0 && vfg_lastdom < 0)) ==> VF_RET != 0)
__CPROVER_ensures((!logger->compute_indicators || (VF_RET != 0 && !vfg_it->within_ROI)) ==> (VF_SAME(vfg_it->indicator_contribution[0], VF_OLD(vfg_it->indicator_contribution[0])) && VF_SAME(vfg_next->indicator_contribution[0], VF_OLD(vfg_next->indicator_contribution[0]))))
__CPROVER_ensures((!vfg_hasnext || !vfg_next->within_ROI) ==> VF_SAME(vfg_next->indicator_contribution[0], VF_OLD(vfg_next->indicator_contribution[0])))
;
void h(void) {
  logger_biobj_data_t *l = VF_OBJ(logger_biobj_data_t); int r;
  vfg_ind = VF_OBJ(logger_biobj_indicator_t); l->indicators[0] = vfg_ind;
  vfg_node = VF_OBJ(avl_node_t); vfg_new = VF_OBJ(avl_node_t); vfg_it = VF_OBJ(ITEM); vfg_old = VF_OBJ(ITEM); vfg_next = VF_OBJ(ITEM); vfg_prv = VF_OBJ(ITEM); vfg_tree = VF_OBJ(avl_tree_t); vfg_buf = VF_OBJ(avl_tree_t);
  l->archive_tree = vfg_tree; l->buffer_tree = vfg_buf; l->number_of_objectives = 2; vfg_it->normalized_y = mk_vec(2); ((ITEM *)vfg_old)->normalized_y = mk_vec(2); vfg_next->normalized_y = mk_vec(2); vfg_prv->normalized_y = mk_vec(2);
  vfg_node->item = vfg_old; vfg_node->next = nd_int() ? vfg_node : NULL; vfg_head = vfg_tree->head = nd_int() ? vfg_node : NULL;
  { avl_node_t *a = VF_OBJ(avl_node_t), *b = VF_OBJ(avl_node_t); a->item = vfg_next; b->item = vfg_prv; 
    vfg_hasnext = nd_int() != 0; vfg_hasprev = nd_int() != 0; vfg_new->next = vfg_hasnext ? a : NULL; vfg_new->prev = vfg_hasprev ? b : NULL; }
  vfg_calls = vfg_ins = vfg_bins = vfg_freed = vfg_pend = vfg_bpend = vfg_found = vfg_lastdom = vfg_last_end = vfg_inserted_ok = 0; vfg_feas = vfg_it->is_feasible; vfg_ci = l->compute_indicators;
  r = logger_biobj_tree_update(l, vfg_it);
  if (r && vfg_calls > 3) VF_REACH("inserted"); if (!r && vfg_feas) VF_REACH("dominated"); if (r && vfg_calls == 0) VF_REACH("first"); if (!vfg_feas) VF_REACH("infeasible");
  
  if (r && l->compute_indicators && vfg_it->within_ROI && vfg_hasnext && vfg_hasprev) VF_REACH("indicator");
  vfg_never = 0; if (vfg_never) { vf_dom(NULL, NULL, 0); vf_search(NULL, NULL, NULL); vf_ndel(NULL, NULL); vf_bdel(NULL, NULL); vf_ins(NULL, NULL); vf_ifree(NULL, NULL); vf_strcmp0("", ""); }
}
#endif
#if !defined(M_EVAL) && !defined(M_OUT)
static void vf_fprintf(FILE *f) { }
#endif
