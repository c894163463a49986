/* Native harness for the logging triggers: consecutive evaluation numbers and sequences of values, compared with the
 * documented sets of evaluation numbers and targets. */
#define NDEBUG
#include "vf.h"
#include "coco_random.c"
#include "coco_suite.c"
#include "coco_observer.c"
#include "coco_archive.c"
static double rnd(double lo, double hi) { return lo + (hi - lo) * (double)vf_range(0, 1000003) / 1000003.0; }
static const struct { const char *s; size_t n, v[5]; } BASE[] = {{"1,2,5", 3, {1, 2, 5}}, {"1", 1, {1}}, {"1-3", 3, {1, 2, 3}}, {"2,7", 2, {2, 7}}, {"3", 1, {3}}, {"1,2,4,8", 4, {1, 2, 4, 8}}, {"1-5", 5, {1, 2, 3, 4, 5}}, {"11,60", 2, {11, 60}}};
static size_t k1;
static int in_first(size_t e, size_t nt) { size_t k = k1; double v; for (;; k++) { if (k) k1 = k - 1; v = floor(pow(10, (double)k / (double)nt)); if ((size_t)v == e) return 1; if (v > (double)e) return 0; } }
static int in_second(size_t e, size_t b, size_t dim) { size_t j, m; for (m = 1; m <= e; m *= 10) for (j = 0; j < BASE[b].n; j++) if (e == dim * BASE[b].v[j] * m) return 1; return 0; }
static void evals(void) {
  size_t b = vf_range(0, sizeof BASE / sizeof *BASE - 1), dim = vf_range(1, 60), nt = 20, e, max = vf_range(0, 9) ? vf_range(1, 3000) : vf_range(1, 150000);
  coco_observer_evaluations_t *ev = coco_observer_evaluations(BASE[b].s, dim);
  VF_ASSERT(ev->base_count == BASE[b].n, "all base evaluations are used");
  if (vf_range(0, 1)) { nt = vf_range(0, 1) ? vf_range(4, 60) : vf_range(1, 3); ev->number_of_triggers = nt; }
  k1 = 0;
  for (e = 1; e <= max; e++) VF_ASSERT((coco_observer_evaluations_trigger(ev, e) != 0) == (in_first(e, nt) || in_second(e, b, dim)), "logging is triggered exactly at the documented numbers of evaluations");
  coco_observer_evaluations_free(ev);
}
/* target reached by a value: exponent of the grid; far is cleared next to a grid value, where rounding decides */
static double t_log(double v, double n, double prec, int *far) {
  double l;
  if (v == 0) return 0;
  if (v > 0) { if (v < prec) v = prec; else if (fabs(remainder(log10(v) * n, 1)) < 1e-6) *far = 0; l = ceil(log10(v) * n - (v == prec ? 1e-9 : 0)); return pow(10, l / n); }
  v = -v; if (v < prec) v = prec; else if (fabs(remainder(log10(v) * n, 1)) < 1e-6) *far = 0;
  return -pow(10, floor(log10(v) * n + (v == prec ? 1e-9 : 0)) / n);
}
static double val(size_t mode) {
  size_t s = vf_range(0, 11);
  double v = s == 0 ? 0 : s == 1 ? 1e64 : s == 2 ? 1e-8 : s == 3 ? 1e-9 : s == 4 ? 1 : s == 5 ? 1e-8 * rnd(0, 3) : s == 6 ? pow(10, rnd(-8, 3)) : s == 7 ? rnd(0, 10) : s == 8 ? pow(10, rnd(-2, 0)) : s == 9 ? pow(10, rnd(-8, 8)) : s == 10 ? rnd(0, 1e-4) : rnd(0, 1e-6);
  return mode && vf_range(0, 3) == 0 ? -v : v;
}
static void targets(void) {
  static const double LP[] = {1e-8, 1e-5, 1e-3, 1e-2, 1, 1e9}, GP[] = {1e-8, 1e-8, 1e-5, 1e-3};
  double lp = LP[vf_range(0, 5)], gp = GP[vf_range(0, 3)], best_lin = DBL_MAX, best_log = DBL_MAX, v; int known = (int)vf_range(0, 3), r, far; size_t n = vf_range(0, 20), k, m, mode = vf_range(0, 1);
  coco_observer_targets_t *t = coco_observer_targets(known, lp, n, gp);
  m = vf_range(1, 60);
  for (k = 0; k < m; k++) {
    double tl, tg = DBL_MAX, q; int fl, fg = 0; v = val(mode);
    far = 1; q = v / lp; tl = ceil(q) * lp; if (fabs(q) < 1e15 && fabs(q - nearbyint(q)) * lp < 3e-12 && q != nearbyint(q)) far = 0;
    if (fabs(q) < 1e15 && fabs(q) > 1e3 && fabs(q - nearbyint(q)) < 1e-9 * fabs(q)) far = 0;
    if (q != 0 && fabs(q - nearbyint(q)) < 1e-9) far = 0;
    if (known && n > 0) { tg = t_log(v, (double)n, gp, &far); fg = tg < best_log * (best_log > 0 ? 1 - 1e-9 : 1 + 1e-9); }
    fl = tl < best_lin - 1e-9 * lp - 1e-14 * fabs(best_lin);
    if (!far) continue;
    r = coco_observer_targets_trigger(t, v);
    VF_ASSERT((r != 0) == (fl || fg), "logging is triggered exactly when a target not yet reached is reached");
    if (fl) best_lin = tl;
    if (fg) best_log = tg;
    q = best_lin < best_log ? best_lin : best_log; v = coco_observer_targets_get_last_target(t);
    VF_ASSERT(fabs(v - q) <= 1e-9 * fabs(q), "the last target is the smallest one reached");
  }
  coco_observer_targets_free(t);
}
void harness(void) { if (vf_range(0, 2) == 0) evals(); else targets(); }
