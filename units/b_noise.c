/* Native harness (P16): noise models and random numbers against independent oracles. */
#include "vf.h"
#include "coco_random.c"
#include "coco_suite.c"
#include "coco_observer.c"
#include "coco_archive.c"
#define A(P, c, m) do { if (VF_P == (P)) VF_ASSERT(c, m); } while (0)
static double u01(void) { return (double)vf_range(0, 1000003) / 1000003.0; }
static int close_(double a, double b, double tol) { double s; if (a == b || (a != a && b != b)) return 1; s = fabs(a) > fabs(b) ? fabs(a) : fabs(b); return fabs(a - b) <= tol * (s > 1 ? s : 1); }
/* Park-Miller minimal standard with Bays-Durham shuffle, in integers */
static uint64_t pm(uint64_t s) { return 16807 * s % 2147483647u; }
static void o_unif(double *r, size_t n, long seed) {
  uint64_t s = (uint64_t)(seed < 0 ? -seed : seed), tab[32], out; long i; size_t k;
  if (s < 1) s = 1;
  for (i = 39; i >= 0; i--) { s = pm(s); if (i < 32) tab[i] = s; }
  out = tab[0];
  for (k = 0; k < n; k++) { size_t j; s = pm(s); j = (size_t)(out / 67108865u); out = tab[j]; tab[j] = s; r[k] = (double)out / 2147483647.0; if (r[k] == 0) r[k] = 1e-99; }
}
static void o_gauss(double *g, size_t n, long seed) {
  double *u = malloc(2 * n * sizeof *u); size_t i; o_unif(u, 2 * n, seed);
  for (i = 0; i < n; i++) { g[i] = sqrt(-2 * log(u[i])) * cos(2 * 3.14159265358979323846 * u[n + i]); if (g[i] == 0) g[i] = 1e-99; }
  free(u);
}
static void legacy(void) {
  size_t n = vf_range(1, vf_range(0, 9) ? 40 : 2999), i; long s = vf_range(0, 3) ? (long)vf_range(0, 1000000) - 1000 : (long)vf_range(0, 2147483646); double *a = malloc(n * sizeof *a), *b = malloc(n * sizeof *b);
  bbob2009_unif(a, n, s); o_unif(b, n, s);
  for (i = 0; i < n; i++) A(16, a[i] == b[i] && a[i] > 0 && a[i] <= 1, "uniform numbers of the legacy generator");
  bbob2009_gauss(a, n, s); o_gauss(b, n, s);
  for (i = 0; i < n; i++) A(16, close_(a[i], b[i], 1e-12) && fabs(a[i]) < 22 && a[i] != 0, "normal numbers of the legacy generator");
  free(a); free(b);
}
typedef struct { double x[607]; size_t k; } lf_t;
static void lf_new(lf_t *s, uint32_t seed) { size_t i; for (i = 0; i < 607; i++) { s->x[i] = (double)seed / 4294967295.0; if (s->x[i] >= 1) s->x[i] -= 1; seed = 1812433253u * (seed ^ (seed >> 30)) + (uint32_t)i + 1; } s->k = 12; }
static double lf_next(lf_t *s) {
  if (s->k == 607) { size_t i; for (i = 0; i < 607; i++) { double t = s->x[i] + s->x[(i + 334) % 607]; s->x[i] = t >= 1 ? t - 1 : t; } s->k = 0; }
  return s->x[s->k++];
}
static uint32_t inv32(uint32_t a) { uint32_t x = a; int i; for (i = 0; i < 6; i++) x *= 2 - a * x; return x; }
/* the seed for which number i of the initial state is v / (2^32 - 1) */
static uint32_t seed_for(uint32_t v, size_t i) { while (i-- > 0) { uint32_t t = (v - (uint32_t)i - 1) * inv32(1812433253u); v = t ^ (t >> 30); } return v; }
static void rng(void) {
  uint32_t s[2]; coco_random_state_t *r[2]; lf_t o[2]; size_t i, j, n = vf_range(1, vf_range(0, 3) ? 300 : 3000);
  for (i = 0; i < 2; i++) {
    switch (vf_range(0, 7)) { case 2: s[i] = vf_range(0, 1) ? 3083712u : 1651631u; n = 4000; break; /* two numbers of the state add up to exactly one */ case 0: s[i] = seed_for(4294967295u, vf_range(12, 606)); break; case 1: s[i] = seed_for(0, vf_range(12, 606)); break; default: s[i] = (uint32_t)vf_range(0, 4294967295u); }
    r[i] = coco_random_new(s[i]); lf_new(&o[i], s[i]);
  }
  for (j = 0; j < n; j++) {
    double v; i = vf_range(0, 1);
    if (vf_range(0, 3)) { v = coco_random_uniform(r[i]); A(16, v >= 0 && v < 1, "uniform numbers are in [0, 1)"); A(16, v == lf_next(&o[i]), "the stream depends on its own seed and position only"); }
    else { double a = lf_next(&o[i]), b = lf_next(&o[i]); v = coco_random_normal(r[i]); A(16, v >= -40 && v <= 40, "normal numbers are finite"); A(16, a == 0 || close_(v, sqrt(-2 * log(a)) * cos(2 * 3.14159265358979323846 * b), 1e-12), "normal number of the stream"); }
  }
  coco_random_free(r[0]); coco_random_free(r[1]);
}
#define NX 12
static double x_[40];
static long next_seed(long s) { return s + 1 > 1000000000L ? 1 : s + 1; }
static void noisy(void) {
  static const size_t DIM[] = {2, 3, 5, 10, 20, 40};
  size_t f = vf_range(1, 30), di = vf_range(0, vf_range(0, 3) ? 3 : 5), in = vf_range(1, 15), n = DIM[di], k, i, kind = (f - 1) % 3, other = vf_range(1, 30), ext = vf_range(0, 1); int severe = f > 6;
  char a[60], b[60], c[60]; coco_suite_t *s; coco_problem_t *p, *q, *pp; double X[NX][40], y[2], v[NX], nf[NX]; long us = 30, gs = 30;
  double nd = (double)n, al = severe ? 0.49 + 1 / nd : 0.01 * (0.49 + 1 / nd), be = severe ? 1 : 0.01, ca = severe ? 1 : 0.01, cp = severe ? 0.2 : 0.05;
  sprintf(a, "instances: %lu", (unsigned long)in); sprintf(b, "dimensions: %lu function_indices: %lu", (unsigned long)n, (unsigned long)f); sprintf(c, "dimensions: %lu function_indices: %lu", (unsigned long)n, (unsigned long)other);
  s = coco_suite("bbob-noisy", a, b); p = coco_suite_get_next_problem(s, NULL);
  A(16, p->is_noisy == 1, "noisy problems are marked");
  q = ((coco_problem_transformed_data_t *)p->data)->inner_problem;
  coco_reset_seeds();
  if (vf_range(0, 3) == 0) { RANDSEED = us = 1000000000L - (long)vf_range(0, 3); RANDNSEED = gs = 1000000000L - (long)vf_range(0, 3); }
  { long u0 = us, g0 = gs;
  for (k = 0; k < NX; k++) {
    double pen = 0, e, u[2], g[2], t, x0[40];
    if (k == 0 && p->best_parameter && vf_range(0, 1)) memcpy(X[k], p->best_parameter, n * sizeof(double));
    else for (i = 0; i < n; i++) X[k][i] = (u01() - 0.5) * (ext && vf_range(0, 2) == 0 ? 14 : 9.9);
    memcpy(x0, X[k], sizeof x0);
    coco_evaluate_function(p, X[k], y); v[k] = y[0];
    A(16, !memcmp(x0, X[k], n * sizeof(double)), "the point is not modified");
    q->evaluate_function(q, X[k], y); nf[k] = y[0];
    A(16, p->last_noise_free_values[0] == nf[k], "the noise-free value is recorded");
    for (i = 0; i < n; i++) { t = fabs(X[k][i]) - 5; if (t > 0) pen += 100 * t * t; }
    t = nf[k] - p->best_value[0];
    if (kind == 0) { gs = next_seed(gs); o_gauss(g, 1, gs); e = t * exp(be * g[0]); }
    else if (kind == 1) { us = next_seed(us); o_unif(u, 1, us); us = next_seed(us); o_unif(u + 1, 1, us); { double w = pow(1e9 / (t + 1e-99), al * u[1]); e = t * pow(u[0], be) * (w > 1 ? w : 1); } }
    else { us = next_seed(us); o_unif(u, 1, us); gs = next_seed(gs); o_gauss(g, 1, gs); gs = next_seed(gs); o_gauss(g + 1, 1, gs); { double w = u[0] < cp ? 1e3 + g[0] / fabs(g[1] + 1e-199) : 1e3; e = t + (ca * w > 0 ? ca * w : 0); } }
    e += 1.01e-8 + p->best_value[0] + pen;
    A(16, close_(v[k], e, 1e-9), "noisy value: documented function of the noise-free value, the variates and the penalty");
    A(16, v[k] >= p->best_value[0], "no noisy value below the optimal value");
    A(16, RANDSEED == us && RANDNSEED == gs, "a fixed number of variates per evaluation");
  }
  /* the same number of evaluations of the same kind after a reset: the same values, whatever was evaluated before or in between */
  { coco_suite_t *s2 = coco_suite("bbob-noisy", a, c); pp = coco_suite_get_next_problem(s2, NULL); memset(x_, 0, sizeof x_);
    if (vf_range(0, 1)) coco_evaluate_function(pp, x_, y);
    coco_reset_seeds(); A(16, RANDSEED == 30 && RANDNSEED == 30, "coco_reset_seeds"); RANDSEED = u0; RANDNSEED = g0;
    for (k = 0; k < NX; k++) { coco_evaluate_function(p, X[k], y); A(16, y[0] == v[k] || v[k] != v[k], "reproducible after a reset"); }
    coco_suite_free(s2); }
  }
  coco_suite_free(s);
}
/* boundary penalty of a problem with a box of its own in every coordinate */
static void penalty(void) {
  size_t n = vf_range(1, 8), i; coco_problem_t *p = coco_problem_allocate(n, 1, 0); double x[8], e = 0, r; int out = 0;
  for (i = 0; i < n; i++) {
    double a = 20 * u01() - 10, w = 10 * u01(), t = u01() * 3 - 1, d = 0; p->smallest_values_of_interest[i] = a; p->largest_values_of_interest[i] = a + w;
    switch (vf_range(0, 3)) { case 0: x[i] = a; break; case 1: x[i] = p->largest_values_of_interest[i]; break; default: x[i] = a + t * w; }
    if (x[i] < a) d = a - x[i]; if (x[i] > p->largest_values_of_interest[i]) d = x[i] - p->largest_values_of_interest[i];
    if (d > 0) out = 1; e += d * d;
  }
  r = coco_boundary_handling(p, x);
  A(16, close_(r, 100 * e, 1e-12) && (out || r == 0), "boundary penalty: 100 times the squared distance to the box of the problem");
  coco_problem_free(p);
}
void harness(void) { vfg_error_allowed = 0; if (vf_range(0, 9) == 0) { penalty(); return; } switch (vf_range(0, 3)) { case 0: legacy(); break; case 1: rng(); break; default: noisy(); } }
