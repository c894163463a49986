/* Native harness for the bbob logger: random experiments on the real suites with the real observer, the files written are
 * compared record by record with an independent account of the run. */
#define _GNU_SOURCE
#define NDEBUG
#include "vf.h"
#include "coco_random.c"
#include "coco_suite.c"
#include "coco_observer.c"
#include "coco_archive.c"
#include <ftw.h>
#define A(P, c, m) do { if (VF_P == (P)) VF_ASSERT(c, m); } while (0)
static int rmf(const char *p, const struct stat *s, int t, struct FTW *f) { (void)s; (void)t; (void)f; return remove(p); }
static double rnd(double lo, double hi) { return lo + (hi - lo) * (double)vf_range(0, 1000003) / 1000003.0; }
#define ML 4000
typedef struct { size_t n; char l[ML][640]; } rec_t;
static rec_t dat, tdat, rdat, mdat;
static double opt, BEST; static size_t FE, GE; static int NCON;
static int LI; static size_t NINT, DIM; static double bestx[40], brecx[40], gcur[60];
static int digit(double c) { static const double L[9] = {0, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2, 1e-1, 1}; int i; for (i = 0; i < 9; i++) if (c <= L[i]) return i; return 9; }
static void add(rec_t *r, double best, double cur, const double *x, const double *g) {
  char *l; size_t i, k;
  if (r->n >= ML) return;
  l = r->l[r->n++]; k = (size_t)snprintf(l, 640, "%lu %lu %+10.9e %+10.9e ", (unsigned long)FE, (unsigned long)GE, best - opt, cur);
  if (NCON > 0 && g) for (i = 0; i < (size_t)NCON; i++) k += (size_t)snprintf(l + k, 640 - k, "%d", digit(g[i])); else k += (size_t)snprintf(l + k, 640 - k, "%+10.9e", best);
  if (DIM < 22) for (i = 0; i < DIM; i++) if (LI && i < NINT) k += (size_t)snprintf(l + k, 640 - k, " %d", (int)floor(x[i] + 0.5)); else k += (size_t)snprintf(l + k, 640 - k, " %+5.4e", x[i]);
  strcpy(l + k, "\n");
}
/* the records of the file after its header, line by line */
static void cmp(const char *name, const char *ext, rec_t *r) {
  char path[300], line[20000]; FILE *f; size_t k = 0; unsigned long prev = 0, fe;
  snprintf(path, sizeof path, "out/r/%s%s", name, ext);
  f = fopen(path, "r"); A(11, f != NULL, "the data file exists");
  while (fgets(line, sizeof line, f)) {
    A(11, k < r->n, "no record is written that the run does not call for");
    A(11, r->l[k][0] == '%' ? line[0] == '%' : !strcmp(line, r->l[k]), "each record shows the evaluations, the best value, the value of the point evaluated and the point");
    A(11, line[0] == '%' || (sscanf(line, "%lu", &fe) == 1 && fe >= prev), "records are in the order of evaluations"); prev = line[0] == '%' ? 0 : fe;
    k++;
  }
  A(11, k == r->n, "every evaluation that triggers is on record");
  fclose(f);
}
static void hdr(int *inited) { rec_t *r[4] = {&dat, &tdat, &rdat, &mdat}; int i; if (!*inited) for (i = 0; i < 4; i++) if (r[i]->n < ML) strcpy(r[i]->l[r[i]->n++], "%"); *inited = 1; }
static double lg(double v) { return v != v ? NAN_FOR_LOGGING : v > DBL_MAX || v < -DBL_MAX ? INFINITY_FOR_LOGGING : v; }
/* another problem observed by the same observer: a line of its own in the info file and files of its own, named after its function and dimension */
static char want2[400];
static void other(coco_suite_t *s, coco_observer_t *o, size_t fn, size_t dim, size_t inst, const char *suffix, int cont) {
  coco_problem_t *q = coco_suite_get_problem_by_function_dimension_instance(s, fn, dim, inst), *p = coco_suite_get_problem_by_function_dimension_instance(s, fn, dim, inst);
  double x[40], y, yr, g[60], sum = 0, cur, v; size_t i; char name[100], line[4096]; FILE *f; int found = 0;
  VF_ASSUME(p && q);
  opt = *q->best_value; NCON = (int)q->number_of_constraints; DIM = dim; VF_ASSUME(dim <= 40 && NCON <= 60);
  p = coco_problem_add_observer(p, o); A(11, p != NULL, "the observer can observe the next problem");
  for (i = 0; i < dim; i++) x[i] = rnd(-5, 5);
  coco_evaluate_function(p, x, &y); coco_evaluate_function(q, x, &yr);
  A(11, VF_SAME(y, yr), "the value returned is that of the unobserved problem");
  if (NCON > 0) { coco_evaluate_constraint_optional_update(q, x, g, 0); for (i = 0; i < (size_t)NCON; i++) if (g[i] > 0) sum += g[i]; }
  cur = lg(yr); sum = lg(sum); v = (q->is_opt_known ? (cur >= opt ? cur : opt) : sum > 0 ? 1e10 : cur) + sum;
  FE = 1; GE = 0; NINT = q->number_of_integer_variables; if (!cont) dat.n = tdat.n = rdat.n = mdat.n = 0;
  { int h = 0; hdr(&h); }
  add(&dat, v, cur, x, g); add(&tdat, v, cur, x, g);
  coco_problem_free(p); coco_problem_free(q);
  snprintf(name, sizeof name, "data_f%d/bbobexp_f%d_DIM%d%s", (int)fn, (int)fn, (int)dim, suffix);
  cmp(name, ".dat", &dat); cmp(name, ".tdat", &tdat); cmp(name, ".rdat", &rdat); cmp(name, ".mdat", &mdat);
  snprintf(line, sizeof line, "out/r/bbobexp_f%d.info", (int)fn); f = fopen(line, "r"); A(11, f != NULL, "the info file exists");
  if (!cont) snprintf(want2, sizeof want2, "%s.dat", name);
  snprintf(want2 + strlen(want2), sizeof want2 - strlen(want2), ", %d:1|%.1e", (int)inst, v - opt);
  while (fgets(line, sizeof line, f)) { line[strcspn(line, "\n")] = 0; if (!strcmp(line, want2)) found++; if (!strncmp(line, "suite = '", 9)) { char dd[60]; snprintf(dd, sizeof dd, "funcId = %d, DIM = %d,", (int)fn, (int)dim); if (strstr(line, dd)) found += 100; } }
  A(11, found % 100 == 1 && found >= 100, "function, dimension, instance and result of every problem are in the info file");
  fclose(f);
}
void harness(void) {
  static const char *SU[] = {"bbob", "bbob-constrained", "bbob-mixint", "bbob-noisy", "bbob"};
  static const char *BS[] = {"1,2,5", "1", "1-3", "3"};
  size_t si = vf_range(0, 4), dim = si == 2 ? 5 : (size_t)(vf_range(0, 1) ? 2 : vf_range(0, 1) ? 3 : 5), fn = si == 3 ? 101 + vf_range(0, 29) : si == 1 ? vf_range(1, 54) : vf_range(1, 24), inst = vf_range(1, 15), i, e, N, nt = 20 /* other values: known finding, the option is ignored */, dim2 = si == 2 || si == 1 || vf_range(0, 1) ? 10 : vf_range(0, 1) ? 40 : 20, fn2 = si == 1 ? fn % 54 + 1 : fn % 24 + 1, ng = vf_range(0, 12), b = vf_range(0, 3), k, round, rounds = vf_range(1, 3), lastm = 0; int any = 0;
  char so[200], oo[400], name[100], want[400], line[4096]; double x[40], x0[40], y, yr, g[60], gr[60], bestrec = INFINITY_FOR_LOGGING, xopt[40]; double lp = vf_range(0, 1) ? 1e-5 : 1e-8;
  coco_suite_t *s; coco_problem_t *p, *q; coco_observer_t *o; int restarted = 0, inited = 0; size_t lastd = 0, lastt = 0; FILE *f;
  coco_observer_targets_t *tg, *tm; coco_observer_evaluations_t *ev;
  coco_log_level = COCO_ERROR; coco_reset_seeds(); LI = (int)vf_range(0, 1);
  nftw("out", rmf, 16, FTW_DEPTH | FTW_PHYS);
  snprintf(so, sizeof so, "dimensions: %d,%d function_indices: %d,%d instance_indices: 1-4", (int)(si == 2 ? dim : dim < dim2 ? dim : dim2), (int)(dim < dim2 ? dim2 : dim), (int)(si == 3 ? fn - 100 : fn), (int)(si == 3 ? fn - 100 : fn2));
  snprintf(oo, sizeof oo, "instances: %d-%d", (int)inst, (int)inst + 3); s = coco_suite(SU[si], oo, so); VF_ASSUME(s != NULL);
  snprintf(oo, sizeof oo, "outer_folder: out result_folder: r number_target_triggers: %d number_evaluation_triggers: %d base_evaluation_triggers: %s lin_target_precision: %g%s", (int)ng, (int)nt, BS[b], lp, LI ? " log_discrete_as_int: 1" : "");
  o = coco_observer("bbob", oo);
  dat.n = tdat.n = rdat.n = mdat.n = 0;
  snprintf(name, sizeof name, "data_f%d/bbobexp_f%d_DIM%d", (int)fn, (int)fn, (int)dim); snprintf(want, sizeof want, "%s.dat", name);
  for (round = 0; round < rounds; round++, inst++) {
  bestrec = INFINITY_FOR_LOGGING; restarted = inited = 0; lastd = lastt = lastm = 0;
  q = coco_suite_get_problem_by_function_dimension_instance(s, fn, dim, inst); p = coco_suite_get_problem_by_function_dimension_instance(s, fn, dim, inst); VF_ASSUME(p && q);
  opt = *q->best_value; memcpy(xopt, q->best_parameter ? q->best_parameter : q->smallest_values_of_interest, dim * sizeof(double));
  NCON = (int)q->number_of_constraints; DIM = dim; NINT = q->number_of_integer_variables;
  p = coco_problem_add_observer(p, o);
  A(11, p != NULL && p->number_of_variables == dim && p->number_of_objectives == 1, "the observed problem has the same shape");
  for (i = 0; i < dim; i++) A(11, p->smallest_values_of_interest[i] == q->smallest_values_of_interest[i] && p->largest_values_of_interest[i] == q->largest_values_of_interest[i], "the observed problem has the same region of interest");
  tg = coco_observer_targets(s->known_optima, lp, ng, 1e-8); tm = coco_observer_targets(s->known_optima, lp, ng, 1e-8);
  ev = coco_observer_evaluations(BS[b], dim); ev->number_of_triggers = nt;
  FE = GE = 0; BEST = DBL_MAX;
  N = vf_range(0, 120);
  for (e = 0; e < N; e++) {
    size_t act = vf_range(0, 40); double sc = pow(10, rnd(-6, 0.7)), v, sum = 0, cur;
    for (i = 0; i < dim; i++) x[i] = vf_range(0, 2) ? xopt[i] + sc * rnd(-1, 1) : rnd(-5, 5);
    if (act == 39 && !(LI && si == 2)) x[vf_range(0, dim - 1)] = 1e200; 
    if (act == 40) x[vf_range(0, dim - 1)] = vf_range(0, 1) ? NAN : INFINITY;
    memcpy(x0, x, sizeof x);
    if (act == 0) { coco_observer_signal_restart(o, p); if (FE > 0) restarted = 1; continue; }
    if (act == 1 && NCON > 0) { coco_evaluate_constraint(p, x, g); coco_evaluate_constraint(q, x, gr); for (i = 0; i < (size_t)NCON; i++) A(11, VF_SAME(g[i], gr[i]), "constraint values are those of the unobserved problem"); continue; }
    if (act == 2 && si != 3) {
      coco_recommend_solution(p, x); hdr(&inited);
      coco_evaluate_function(q, x, &yr); yr = lg(yr);
      if (NCON > 0) { coco_evaluate_constraint_optional_update(q, x, gr, 0); for (i = 0; i < (size_t)NCON; i++) if (gr[i] > 0) sum += gr[i]; }
      v = q->is_opt_known ? (yr >= opt ? yr : opt) : sum > 0 ? 1e10 : yr; v += lg(sum);
      if (v < bestrec) { bestrec = v; memcpy(brecx, x, sizeof x); if (coco_observer_targets_trigger(tm, v - opt)) { add(&mdat, v, yr, x, gr); lastm = FE; } }
      continue;
    }
    if (si == 3) { extern void coco_reset_seeds(void); coco_reset_seeds(); }
    coco_evaluate_function(p, x, &y);
    A(11, !memcmp(x, x0, dim * sizeof(double)), "the point is not modified");
    if (si == 3) coco_reset_seeds();
    coco_evaluate_function(q, x, &yr);
    A(11, VF_SAME(y, yr), "the value returned is that of the unobserved problem");
    if (act == 40) continue;
    FE++; GE = p->evaluations_constraints; hdr(&inited);
    A(11, coco_problem_get_evaluations(p) == FE, "evaluations are counted once");
    cur = lg(si == 3 && q->is_noisy == 1 ? q->last_noise_free_values[0] : yr);
    if (NCON > 0) { coco_evaluate_constraint_optional_update(q, x, gr, 0); for (i = 0; i < (size_t)NCON; i++) if (gr[i] > 0) sum += gr[i]; }
    sum = lg(sum);
    v = (q->is_opt_known ? (cur >= opt ? cur : opt) : sum > 0 ? 1e10 : cur) + sum;
    if (FE == 1 || v < BEST) { BEST = v; memcpy(bestx, x, sizeof x); if (FE == 1 || coco_observer_targets_trigger(tg, BEST - opt)) { add(&dat, BEST, cur, x, gr); lastd = FE; } }
    if (coco_observer_evaluations_trigger(ev, FE + GE)) { add(&tdat, BEST, cur, x, gr); lastt = FE; }
    if (restarted) { add(&rdat, BEST, cur, x, gr); restarted = 0; }
  }
  coco_problem_free(p); coco_problem_free(q);
  coco_observer_targets_free(tg); coco_observer_targets_free(tm); coco_observer_evaluations_free(ev);
  if (inited) {
    any = 1;
    if (FE != lastd) add(&dat, BEST, BEST, bestx, NULL);
    if (FE != lastt) add(&tdat, BEST, BEST, bestx, NULL);
    if (FE != lastm && lastm != 0) add(&mdat, bestrec, bestrec, brecx, NULL);
    snprintf(want + strlen(want), sizeof want - strlen(want), ", %d:%d|%.1e", (int)inst, (int)FE, BEST - opt);
  }
  }
  if (!any || vf_range(0, 3)) { coco_observer_free(o); o = NULL; coco_suite_free(s); s = NULL; }
  if (any) {
    cmp(name, ".dat", &dat); cmp(name, ".tdat", &tdat); cmp(name, ".rdat", &rdat); cmp(name, ".mdat", &mdat);
    snprintf(line, sizeof line, "out/r/bbobexp_f%d.info", (int)fn);
    f = fopen(line, "r"); A(11, f != NULL, "the info file exists");
    for (k = 0; fgets(line, sizeof line, f); ) if (!strcmp(line, want) || (strstr(line, want) == line && line[strlen(want)] == '\n')) k++;
    A(11, k == 1, "the info file lists instance, number of evaluations and final value of every problem");
    fclose(f);
  }
  if (o && si != 3) {
    other(s, o, fn, dim2, inst - 1, "", 0);
    /* back to the dimension before: a new set of files, which the next problem goes to as well */
    other(s, o, fn, dim, inst - 1, "-0001", 0);
    if (vf_range(0, 1)) other(s, o, fn, dim, inst, "-0001", 1);
    other(s, o, fn2, dim, inst - 1, "", 0);
  }
  if (o) { coco_observer_free(o); coco_suite_free(s); }
  nftw("out", rmf, 16, FTW_DEPTH | FTW_PHYS);
}
