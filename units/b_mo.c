/* Native harness: bi-objective archive (P12) and bi-objective logger (P13) against a brute-force account of the nondominated set. */
#define _GNU_SOURCE
#define NDEBUG
#include "vf.h"
#include "coco_random.c"
#include "coco_suite.c"
#include "coco_observer.c"
#include "coco_archive.c"
#include <ftw.h>
#define A(P, c, m) do { if (VF_P == (P)) VF_ASSERT(c, m); } while (0)
static int rmf(const char *p, const struct stat *s, int t, struct FTW *f) { (void)s; (void)t; (void)f; return remove(p); }
static double rnd(double lo, double hi) { return lo + (hi - lo) * (double)vf_range(0, 1000003) / 1000003.0; }
typedef struct { double z[2], y[2], x[40]; size_t ev; } pt_t;
static pt_t M[600]; static size_t NM;
static int eq(double a, double b) { return fabs(a - b) < 1e-13; }
static int weak(const double *a, const double *b) { int i; for (i = 0; i < 2; i++) if (!eq(a[i], b[i]) && !(a[i] < b[i])) return 0; return 1; }
static void norm(const double *y, const double *lo, const double *hi, double *z) {
  int i;
  for (i = 0; i < 2; i++) { z[i] = floor(((y[i] - lo[i]) / (hi[i] - lo[i])) / 5e-13 + 0.5) * 5e-13; if (z[i] < 0) z[i] = 0; }
  for (i = 0; i < 2; i++) if (eq(z[i], 0) && z[1 - i] < 1) z[1 - i] = 1;
}
static int roi(const double *z) { int i; for (i = 0; i < 2; i++) if (!(eq(z[i], 0) || eq(z[i], 1) || (z[i] > 0 && z[i] < 1))) return 0; return 1; }
static int madd(const pt_t *p) {
  size_t i, k = 0;
  for (i = 0; i < NM; i++) if (weak(M[i].z, p->z)) return 0;
  for (i = 0; i < NM; i++) if (!weak(p->z, M[i].z)) M[k++] = M[i];
  NM = k; M[NM++] = *p; return 1;
}
/* area dominated within the unit square: sweep over the first objective */
static double hv(void) {
  double done = 1, area = 0, cur = -1; size_t i; 
  for (;;) { size_t b = NM; for (i = 0; i < NM; i++) if (roi(M[i].z) && M[i].z[0] > cur && (b == NM || M[i].z[0] < M[b].z[0])) b = i; if (b == NM) break; cur = M[b].z[0]; if (M[b].z[1] < done) { area += (1 - M[b].z[0]) * (done - M[b].z[1]); done = M[b].z[1]; } }
  return area;
}
static int depth(const avl_node_t *n, size_t *cnt) { int l, r; if (!n) return 0; ++*cnt; l = depth(n->left, cnt); r = depth(n->right, cnt); A(12, n->left == NULL || n->left->parent == n, "parent link"); A(12, n->right == NULL || n->right->parent == n, "parent link"); A(12, l - r <= 1 && r - l <= 1, "the tree is balanced"); return 1 + (l > r ? l : r); }
#if VF_P == 12
static void check_tree(coco_archive_t *a) {
  size_t i, c = 0, t = 0; avl_node_t *n, *pv = NULL; static int seen[600]; memset(seen, 0, sizeof seen);
  depth(a->tree->top, &t);
  for (n = a->tree->head; n; pv = n, n = n->next, c++) {
    coco_archive_avl_item_t *it = (coco_archive_avl_item_t *)n->item; size_t hit = NM;
    A(12, n->prev == pv, "list links");
    A(12, pv == NULL || ((coco_archive_avl_item_t *)pv->item)->normalized_y[1] < it->normalized_y[1], "sorted by the second objective");
    for (i = 0; i < NM; i++) if (!seen[i] && eq(M[i].z[0], it->normalized_y[0]) && eq(M[i].z[1], it->normalized_y[1])) hit = i;
    A(12, hit < NM, "the archive holds only nondominated solutions added to it"); seen[hit] = 1;
    { char w[40]; snprintf(w, sizeof w, "T%d", (int)M[hit].ev); A(12, M[hit].ev == 0 || !strcmp(w, it->text), "with the text they were added with"); }
  }
  A(12, a->tree->tail == pv, "list end"); A(12, c == NM && t == NM, "the archive holds every nondominated solution added to it");
}
void harness(void) {
  size_t fn = vf_range(1, 55), dim = vf_range(0, 1) ? 2 : 3, inst = vf_range(1, 10), n = vf_range(0, 200), e, i, style = vf_range(0, 3); int fresh = 1; coco_archive_t *a; pt_t p; char txt[40]; double lo[2], hi[2];
  coco_log_level = COCO_ERROR; 
  a = coco_archive("bbob-biobj", fn, dim, inst); NM = 0;
  memcpy(lo, a->ideal, sizeof lo); memcpy(hi, a->nadir, sizeof hi);
  p.ev = 0; p.y[0] = hi[0]; p.y[1] = lo[1]; norm(p.y, lo, hi, p.z); madd(&p); p.y[0] = lo[0]; p.y[1] = hi[1]; norm(p.y, lo, hi, p.z); madd(&p);
  for (e = 1; e <= n; e++) {
    int up;
    for (i = 0; i < 2; i++) {
      double z = style == 0 ? rnd(0, 1) : style == 1 ? (double)vf_range(0, 20) * 0.05 : style == 2 ? rnd(-0.3, 2.5) : 0.5 + (double)vf_range(0, 12) * 5e-13 + (double)vf_range(0, 4) * 1e-13;
      if (vf_range(0, 60) == 0) z = (double)vf_range(0, 3); if (vf_range(0, 200) == 0) z = rnd(-5, 20000);
      p.y[i] = lo[i] + z * (hi[i] - lo[i]);
    }
    if (vf_range(0, 9) == 0 && NM) memcpy(p.y, M[vf_range(0, NM - 1)].y, sizeof p.y);
    if (style == 0) p.y[1] = lo[1] + (hi[1] - lo[1]) * (1 - (p.y[0] - lo[0]) / (hi[0] - lo[0]) + rnd(-0.02, 0.02));
    p.ev = e; norm(p.y, lo, hi, p.z); snprintf(txt, sizeof txt, "T%d", (int)e);
    up = madd(&p); fresh |= up;
    A(12, coco_archive_add_solution(a, p.y[0], p.y[1], txt) == up, "a solution enters exactly when none in the archive weakly dominates it");
    if (vf_range(0, 15) == 0 || e == n) {
      size_t k; static int seen[600];
      check_tree(a);
      A(12, coco_archive_get_number_of_solutions(a) == NM, "number of solutions");
      A(12, fabs(coco_archive_get_hypervolume(a) - hv()) < 1e-9, "hypervolume of the archive within the region of interest");
      if (vf_range(0, 3) || !fresh) continue;
      fresh = 0;
      memset(seen, 0, sizeof seen);
      for (k = 0; k < NM; k++) {
        const char *t = coco_archive_get_next_solution_text(a); size_t hit = NM;
        A(12, t && *t, "as many texts as solutions");
        if (k < 2) A(12, t[0] == '0', "the extreme solutions first");
        else { for (i = 0; i < NM; i++) { char w[40]; snprintf(w, sizeof w, "T%d", (int)M[i].ev); if (!seen[i] && !strcmp(w, t)) hit = i; } A(12, hit < NM && M[hit].ev > 0, "each solution is returned once"); seen[hit] = 1; }
        if (vf_range(0, 30) == 0) break;
      }
      if (k == NM) A(12, !strcmp(coco_archive_get_next_solution_text(a), ""), "then the empty text");
    }
  }
  coco_archive_free(a);
}
#else
#define ML 3000
typedef struct { size_t n; char l[ML][400]; } rec_t;
static rec_t dat, tdat, rdat, mdat, adat;
static void put(rec_t *r, const char *l) { if (r->n < ML) strcpy(r->l[r->n++], l); }
static void cmp(const char *dir, const char *name, const char *ext, rec_t *r) {
  char path[400], line[5000]; FILE *f; size_t k = 0;
  snprintf(path, sizeof path, "out/r/%s/%s%s", dir, name, ext);
  f = fopen(path, "r"); A(13, f != NULL, "the data file exists");
  while (fgets(line, sizeof line, f)) {
    A(13, k < r->n, "no record is written that the run does not call for");
    A(13, r->l[k][0] == '%' ? line[0] == '%' : !strcmp(line, r->l[k]), "each record shows the evaluation number and the values at that evaluation");
    k++;
  }
  A(13, k == r->n, "every record the run calls for is written");
  fclose(f);
}
static int PX, PF, DI; static size_t NI;
static void sol(char *l, const pt_t *p, size_t dim, int lv) {
  size_t k = (size_t)sprintf(l, "%lu\t%.*e\t%.*e\t", (unsigned long)p->ev, PF, p->y[0], PF, p->y[1]), i;
  if (lv) for (i = 0; i < dim; i++) k += (size_t)(i < NI && DI ? sprintf(l + k, "%.0f\t", floor(p->x[i] + 0.5) + 0.0) : sprintf(l + k, "%.*e\t", PX, p->x[i]));
  strcpy(l + k, "\n");
}
void harness(void) {
  static const char *SU[] = {"bbob-biobj", "bbob-biobj-mixint", "bbob-biobj-ext"}, *NDS[] = {"none", "final", "all", "read"}, *LV[] = {"none", "low_dim", "all"}, *BS[] = {"1,2,5", "1", "1-3", "3"};
  size_t si = vf_range(0, 5) < 4 ? 0 : vf_range(1, 2), dim = si == 1 ? (vf_range(0, 1) ? 5 : 10) : (size_t)(vf_range(0, 1) ? 2 : vf_range(0, 1) ? 3 : 10), dim2 = dim != 5 ? 5 : 10, fn = vf_range(1, 55), fn2 = fn % 55 + 1, inst = vf_range(1, 10), i, j, e, N, rounds = vf_range(1, 2), round, nd = vf_range(0, 7) < 5 ? 2 : vf_range(0, 3), lvm = vf_range(0, 2), ci = vf_range(0, 5) > 0, ng = vf_range(0, 30), b = vf_range(0, 3);
  char so[200], oo[600], line[4096], dir[200], name[200], aname[200], want[400]; double x[40], x0[40], y[2], yr[2], z[2], pen, best, ov; int lv, restarted, up, hit, ela; coco_suite_t *s; coco_problem_t *p, *q; coco_observer_t *o; FILE *f; logger_biobj_data_t *L; size_t FE;
  coco_observer_targets_t *tg; coco_observer_evaluations_t *ev; double lp = vf_range(0, 1) ? 1e-5 : 1e-8; pt_t P;
  coco_log_level = COCO_ERROR; nftw("out", rmf, 16, FTW_DEPTH | FTW_PHYS);
  if (nd == 0) ci = 1;
  PX = (int)vf_range(1, 12); PF = (int)vf_range(1, 17); DI = (int)vf_range(0, 1);
  snprintf(so, sizeof so, "dimensions: %d,%d function_indices: %d,%d", (int)(dim < dim2 ? dim : dim2), (int)(dim < dim2 ? dim2 : dim), (int)fn, (int)fn2); snprintf(oo, sizeof oo, "instances: %d-%d", (int)inst, (int)inst + 1);
  s = coco_suite(SU[si], oo, so); VF_ASSUME(s != NULL);
  snprintf(oo, sizeof oo, "outer_folder: out result_folder: r log_nondominated: %s log_decision_variables: %s compute_indicators: %d number_target_triggers: %d base_evaluation_triggers: %s lin_target_precision: %g precision_x: %d precision_f: %d log_discrete_as_int: %d", NDS[nd], LV[lvm], (int)ci, (int)ng, BS[b], lp, PX, PF, DI);
  o = coco_observer("bbob-biobj", oo);
  dat.n = tdat.n = rdat.n = mdat.n = 0; lv = lvm == 2 || (lvm == 1 && dim <= 5); want[0] = 0;
  for (round = 0; round < rounds; round++, inst++) {
    q = coco_suite_get_problem_by_function_dimension_instance(s, fn, dim, inst); p = coco_suite_get_problem_by_function_dimension_instance(s, fn, dim, inst); VF_ASSUME(p && q);
    NI = q->number_of_integer_variables;
    p = coco_problem_add_observer(p, o); L = (logger_biobj_data_t *)coco_problem_transformed_get_data(p);
    A(13, p->number_of_variables == dim && p->number_of_objectives == 2, "the observed problem has the same shape");
    for (i = 0; i < dim; i++) A(13, p->smallest_values_of_interest[i] == q->smallest_values_of_interest[i] && p->largest_values_of_interest[i] == q->largest_values_of_interest[i], "the observed problem has the same region of interest");
    snprintf(dir, sizeof dir, "%s", q->problem_type); { char *t = coco_remove_from_string(q->problem_id, "_i", "_d"); snprintf(name, sizeof name, "%s", t); coco_free_memory(t); } snprintf(aname, sizeof aname, "%s_nondom_%s.adat", q->problem_id, NDS[nd]);
    tg = coco_observer_targets(s->known_optima, lp, ng, 1e-8); ev = coco_observer_evaluations(BS[b], dim);
    for (i = 0; i < 4; i++) { put(&dat, "%"); put(&tdat, "%"); put(&rdat, "%"); } put(&mdat, "%"); put(&mdat, "%"); adat.n = 0; put(&adat, "%"); put(&adat, "%");
    NM = 0; FE = 0; pen = DBL_MAX; ov = 0; restarted = 0; hit = ela = 0; best = ci ? L->indicators[0]->best_value : 0;
    N = vf_range(1, 150);
    for (e = 0; e < N || FE == 0; e++) {
      size_t act = vf_range(0, 30), prevFE = FE; double sc = pow(10, rnd(-5, 0.5));
      for (i = 0; i < dim; i++) x[i] = NM && vf_range(0, 3) ? M[vf_range(0, NM - 1)].x[i] + sc * rnd(-1, 1) : q->smallest_values_of_interest[i] + (q->largest_values_of_interest[i] - q->smallest_values_of_interest[i]) * rnd(-0.2, 1.2);
      memcpy(x0, x, sizeof x);
      if (act == 0) { coco_observer_signal_restart(o, p); if (FE > 0) restarted = 1; continue; }
      if (act == 1 && nd != 3) {
        coco_evaluate_function(q, x, yr); memcpy(P.y, yr, sizeof yr); memcpy(P.x, x, sizeof x); P.ev = FE; coco_recommend_solution(p, x); sol(line, &P, dim, lv); put(&mdat, line);
        A(13, coco_problem_get_evaluations(p) == FE, "a recommendation is not counted"); continue; }
      if (act == 2) { x[vf_range(0, dim - 1)] = vf_range(0, 1) ? NAN : INFINITY; coco_evaluate_function(p, x, y); A(13, nd == 3 || coco_problem_get_evaluations(p) == FE, "non-finite points are not counted"); continue; }
      coco_evaluate_function(q, x, yr);
      if (nd == 3) { FE += FE ? vf_range(1, 9) : 1; up = coco_logger_biobj_feed_solution(p, FE, yr); }
      else {
        FE++; coco_evaluate_function(p, x, y);
        A(13, !memcmp(x, x0, dim * sizeof(double)), "the point is not modified");
        A(13, VF_SAME(y[0], yr[0]) && VF_SAME(y[1], yr[1]), "the values returned are those of the unobserved problem");
        A(13, coco_problem_get_evaluations(p) == FE, "evaluations are counted once"); up = -1;
      }
      memcpy(P.x, x, sizeof x); memcpy(P.y, yr, sizeof yr); P.ev = FE; norm(yr, q->best_value, q->nadir_value, P.z);
      j = (size_t)madd(&P);
      A(13, up < 0 || up == (int)j, "a solution enters the archive exactly when none in it weakly dominates it");
      if (j && nd == 2) { sol(line, &P, dim, lv); put(&adat, line); }
      if (ci) {
        double old = ov, h = hv();
        hit = 0;
        if (j) {
          if (eq(h, 0)) { double d0 = P.z[0] - 1, d1 = P.z[1] - 1, d = roi(P.z) ? 0 : d0 > 0 && d1 > 0 ? sqrt(d0 * d0 + d1 * d1) : d0 > 0 ? d0 : d1; if (d < pen) pen = d; } else pen = 0;
          ov = best - h + pen;
          A(13, fabs(ov - L->indicators[0]->overall_value) <= 1e-9 * (1 + fabs(ov)), "the indicator is the hypervolume missing to the reference value, or the distance to the region of interest");
          ov = L->indicators[0]->overall_value;
          hit = coco_observer_targets_trigger(tg, ov);
        }
        if (hit) { snprintf(line, sizeof line, "%lu\t%.*e\t%.*e\n", (unsigned long)FE, PF, ov, PF, coco_observer_targets_get_last_target(tg)); put(&dat, line); }
        if (nd == 3) for (i = prevFE + 1; i < FE; i++) if (coco_observer_evaluations_trigger(ev, i)) { snprintf(line, sizeof line, "%lu\t%.*e\n", (unsigned long)i, PF, old); put(&tdat, line); }
        snprintf(line, sizeof line, "%lu\t%.*e\n", (unsigned long)FE, PF, ov);
        ela = coco_observer_evaluations_trigger(ev, FE); if (ela) put(&tdat, line);
        if (restarted) put(&rdat, line);
      }
      restarted = 0;
    }
    coco_problem_free(p);
    if (ci) {
      if (!hit) { snprintf(line, sizeof line, "%lu\t%.*e\t%.*e\n", (unsigned long)FE, PF, ov, PF, coco_observer_targets_get_last_target(tg)); put(&dat, line); }
      if (!ela) { snprintf(line, sizeof line, "%lu\t%.*e\n", (unsigned long)FE, PF, ov); put(&tdat, line); }
      snprintf(want + strlen(want), sizeof want - strlen(want), ", %d:%d|%.1e", (int)inst, (int)FE, ov);
    }
    coco_observer_targets_free(tg); coco_observer_evaluations_free(ev);
    if (nd == 1) for (i = 1; i <= FE; i++) for (j = 0; j < NM; j++) if (M[j].ev == i) { sol(line, &M[j], dim, lv); put(&adat, line); }
    put(&adat, "%");
    if (nd == 1 || nd == 2) cmp("archive", aname, "", &adat);
    coco_problem_free(q);
  }
  cmp(dir, name, ".mdat", &mdat);
  if (ci) {
    cmp(dir, name, "_hyp.dat", &dat); cmp(dir, name, "_hyp.tdat", &tdat); cmp(dir, name, "_hyp.rdat", &rdat);
    snprintf(line, sizeof line, "out/r/%s_hyp.info", dir); f = fopen(line, "r"); A(13, f != NULL, "the info file exists");
    snprintf(so, sizeof so, "function = %2d, dim = %2d, %s_hyp.dat", (int)fn, (int)dim, name);
    for (i = 0; fgets(line, sizeof line, f); ) { char *t = line + strlen(line); if (t > line && t[-1] == '\n') t[-1] = 0; if (!strncmp(line, so, strlen(so)) && !strcmp(line + strlen(so), want)) i++; }
    A(13, i == 1, "the info file lists instance, number of evaluations and final value of every problem"); fclose(f);
  }
  /* problems of another dimension, and of another function, under the same observer: lines of their own in the info file, files of their own */
  if (ci && nd != 3 && vf_range(0, 1)) for (j = 0; j < 2; j++) {
    size_t f_ = j ? fn2 : fn, d_ = j ? dim : dim2; char *t; int n1 = 0, n2 = 0;
    p = coco_suite_get_problem_by_function_dimension_instance(s, f_, d_, inst - 1); VF_ASSUME(p != NULL);
    snprintf(dir, sizeof dir, "%s", p->problem_type); t = coco_remove_from_string(p->problem_id, "_i", "_d"); snprintf(name, sizeof name, "%s", t); coco_free_memory(t);
    p = coco_problem_add_observer(p, o); A(13, p != NULL, "the observer can observe the next problem"); L = (logger_biobj_data_t *)coco_problem_transformed_get_data(p);
    for (i = 0; i < d_; i++) x[i] = rnd(p->smallest_values_of_interest[i], p->largest_values_of_interest[i]);
    coco_evaluate_function(p, x, y); ov = L->indicators[0]->overall_value;
    coco_problem_free(p);
    snprintf(want, sizeof want, "function = %2d, dim = %2d, %s_hyp.dat, %d:1|%.1e", (int)f_, (int)d_, name, (int)inst - 1, ov);
    snprintf(line, sizeof line, "out/r/%s_hyp.info", dir); f = fopen(line, "r"); A(13, f != NULL, "the info file exists");
    for (i = 0; fgets(line, sizeof line, f); n2++) { t = line + strlen(line); if (t > line && t[-1] == '\n') t[-1] = 0; if (!strcmp(line, want)) n1++; }
    A(13, n1 == 1, "function, dimension, instance and result of every problem are in the info file"); fclose(f);
    snprintf(line, sizeof line, "out/r/%s/%s_hyp.tdat", dir, name); f = fopen(line, "r"); A(13, f != NULL, "the data file of the problem exists");
    snprintf(want, sizeof want, "1\t%.*e\n", PF, ov);
    for (n1 = 0; fgets(line, sizeof line, f); ) n1 += line[0] == '%' ? 100 : !strcmp(line, want) ? 1 : 10;
    A(13, n1 == 401, "the record of the evaluation is in the data file of its problem"); fclose(f);
  }
  coco_observer_free(o); coco_suite_free(s);
  nftw("out", rmf, 16, FTW_DEPTH | FTW_PHYS);
}
#endif
