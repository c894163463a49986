/* Native harness (P14): the raw benchmark functions against independent formulas, and the problems of the suites: nothing below the
 * optimal value, the optimal value at the optimum, NaN in - NaN out, values that depend on the point only. */
#define NDEBUG
#include "vf.h"
#include "coco_random.c"
#include "coco_suite.c"
#include "coco_observer.c"
#include "coco_archive.c"
#define A(P, c, m) do { if (VF_P == (P)) VF_ASSERT(c, m); } while (0)
#define NM 48
static double u01(void) { return (double)vf_range(0, 1000003) / 1000003.0; }
static double rnd(double lo, double hi) { return lo + (hi - lo) * u01(); }
static double coord(int wild) {
  switch (vf_range(0, wild ? 11 : 6)) {
    case 0: return 0; case 1: return 1; case 2: return -1; case 3: return rnd(-1e-6, 1e-6); case 4: return rnd(-1, 1); case 5: case 6: return rnd(-5, 5);
    case 7: return rnd(-600, 600); case 8: return rnd(-1e4, 1e4); case 9: return 1e20 * rnd(-1, 1); case 10: return 1e100 * rnd(-1, 1); default: return rnd(-20, 20);
  }
}
static int close_(double a, double b, double tol) { double s; if (a == b || (a != a && b != b)) return 1; s = fabs(a) > fabs(b) ? fabs(a) : fabs(b); return fabs(a - b) <= tol * (s > 1 ? s : 1); }
static double sq(double v) { return v * v; }

static void raw(void) {
  enum { SPH, CIG, DIS, ELL, ATT, BUE, RAS, DPO, ROS, SCH, RID, KAT, GRI, SWE, SWG, LIN, WEI, DISG, CIGG, RIDG, STEP, LUN, GAL, NK };
  size_t k = vf_range(0, NK - 1), n = vf_range(0, 9) ? vf_range(2, 12) : vf_range(2, NM), i, j, den = vf_range(1, 50), q; int wild = vf_range(0, 3) == 0, nanp = vf_range(0, 15) == 0, opt = vf_range(0, 7) == 0;
  double x[NM], x0[NM], v = 0, v2 = 0, e = 0, s1 = 0, s2 = 0, s3 = 0, pen = 0, tol = 1e-9, aux[NM], m1[NM][NM], m2[NM][NM], *r1[NM], *r2[NM], b1[NM], b2[NM], cond = pow(10, rnd(0, 6)), facf = rnd(0.5, 20), fopt = rnd(-500, 500), ps = rnd(0, 3);
  int known = 1, t;
  if (k >= STEP) n = n > 12 ? 12 : n;
  for (i = 0; i < n; i++) { x[i] = coord(wild); aux[i] = rnd(0, 1) < 0.5 ? -5 : 5; if (k == SCH || k == SWE || k == SWG) x[i] *= 50; if (k == SWE || k == SWG) x[i] += 0; }
  if (opt) for (i = 0; i < n; i++) x[i] = k == ROS || k == GRI ? 1 : k == LIN ? aux[i] : k == SWE || k == SWG ? 420.96874633 : 0;
  for (i = 0; i < n; i++) for (j = 0; j < n; j++) { m1[i][j] = rnd(-1, 1); m2[i][j] = rnd(-1, 1); }
  for (i = 0; i < n; i++) { r1[i] = m1[i]; r2[i] = m2[i]; }
  if (nanp) x[vf_range(0, n - 1)] = NAN;
  memcpy(x0, x, sizeof x0);
  q = n / den + (n % den != 0);
  for (i = 0; i < n; i++) { double t_ = fabs(x[i]) - 5; if (t_ > 0) pen += t_ * t_; }
  /* documented value */
  switch (k) {
    case SPH: for (i = 0; i < n; i++) e += sq(x[i]); break;
    case CIG: for (i = 0; i < n; i++) e += (i ? 1e6 : 1) * sq(x[i]); break;
    case DIS: for (i = 0; i < n; i++) e += (i ? 1 : 1e6) * sq(x[i]); break;
    case ELL: for (i = 0; i < n; i++) e += pow(cond, (double)i / (double)(n - 1)) * sq(x[i]); break;
    case ATT: for (i = 0; i < n; i++) e += (aux[i] * x[i] > 0 ? 1e4 : 1) * sq(x[i]); break;
    case BUE: case RAS: for (i = 0; i < n; i++) { s1 += cos(2 * coco_pi * x[i]); e += sq(x[i]); } e += 10 * ((double)n - s1); break;
    case DPO: for (i = 0; i < n; i++) e += pow(fabs(x[i]), 2 + 4 * (double)i / (double)(n - 1)); e = sqrt(e); break;
    case ROS: for (i = 0; i + 1 < n; i++) e += 100 * sq(sq(x[i]) - x[i + 1]) + sq(x[i] - 1); break;
    case SCH: for (i = 0; i + 1 < n; i++) { double s = sqrt(sq(x[i]) + sq(x[i + 1])); e += sqrt(s) * (1 + sq(sin(50 * pow(s, 0.2)))); } e = sq(e / (double)(n - 1)); tol = wild ? 1e9 : 1e-6; break;
    case RID: for (i = 1; i < n; i++) e += sq(x[i]); e = sq(x[0]) + 100 * sqrt(e); break;
    case KAT: e = 1; for (i = 0; i < n; i++) { double s = 0, p = 1; for (j = 1; j <= 32; j++) { p *= 2; s += fabs(p * x[i] - floor(p * x[i] + 0.5)) / p; } e *= pow(1 + (double)(i + 1) * s, 10 / pow((double)n, 1.2)); } e = 10 / sq((double)n) * e - 10 / sq((double)n); tol = 1e-8; break;
    case GRI: for (i = 0; i + 1 < n; i++) { double s = 100 * sq(sq(x[i]) - x[i + 1]) + sq(x[i] - 1); e += s / 4000 - cos(s); } e = facf * e / (double)(n - 1) + facf; tol = 1e-7; break;
    case SWE: case SWG: for (i = 0; i < n; i++) { double t_ = fabs(x[i]) - 500; s1 += x[i] * sin(sqrt(fabs(x[i]))); if (t_ > 0) s2 += t_ * t_; } e = 0.01 * s2 + 4.189828872724339 - 0.01 * s1 / (double)n; break;
    case LIN: for (i = 0; i < n; i++) { double s = pow(10, (double)i / (double)(n - 1)), z = aux[i] > 0 ? x[i] : -x[i]; e += 5 * s - s * (z < 5 ? z : 5); } break;
    case WEI: known = 0; break;
    case DISG: for (i = 0; i < n; i++) e += (i < q ? 1e6 : 1) * sq(x[i]); break;
    case CIGG: for (i = 0; i < n; i++) e += (i < q ? 1 : 1e6) * sq(x[i]); break;
    case RIDG: for (i = 0; i < n; i++) { if (i < q) s1 += sq(x[i]); else s2 += sq(x[i]); } e = s1 + 100 * sqrt(s2); break;
    case STEP: for (i = 0; i < n; i++) { b1[i] = 0; for (j = 0; j < n; j++) b1[i] += pow(10, 0.5 * (double)i / (double)(n - 1)) * m2[i][j] * (x[j] - aux[j]); }
      s1 = fabs(b1[0]) * 1e-4; for (i = 0; i < n; i++) b1[i] = fabs(b1[i]) > 0.5 ? floor(b1[i] + 0.5) : floor(10 * b1[i] + 0.5) / 10;
      for (i = 0; i < n; i++) { double s = 0; for (j = 0; j < n; j++) s += m1[i][j] * b1[j]; e += pow(100, (double)i / (double)(n - 1)) * s * s; }
      e = 0.1 * (s1 > e ? s1 : e) + ps * pen + fopt; known = !wild; break;
    case LUN: { double s = 1 - 1 / (2 * sqrt((double)n + 20) - 8.2), mu = -sqrt((2.5 * 2.5 - 1) / s);
      for (i = 0; i < n; i++) { double h = aux[i] < 0 ? -2 * x[i] : 2 * x[i]; b2[i] = h; s1 += sq(h - 2.5); s2 += sq(h - mu); }
      for (i = 0; i < n; i++) { b1[i] = 0; for (j = 0; j < n; j++) b1[i] += pow(10, (double)i / (double)(n - 1)) * m2[i][j] * (b2[j] - 2.5); }
      for (i = 0; i < n; i++) { double z = 0; for (j = 0; j < n; j++) z += m1[i][j] * b1[j]; s3 += cos(2 * coco_pi * z); }
      e = (s1 < (double)n + s * s2 ? s1 : (double)n + s * s2) + 10 * ((double)n - s3) + 1e4 * pen; known = !wild; tol = 1e-7; } break;
    default: known = 0;
  }
  if (n < 2) return;
  for (t = 0; t < 2; t++) {
    double r = 0;
    switch (k) {
      case SPH: r = f_sphere_raw(x, n); break; case CIG: r = f_bent_cigar_raw(x, n); break; case DIS: r = f_discus_raw(x, n); break;
      case ELL: { f_ellipsoid_data_t d; d.conditioning = cond; r = f_ellipsoid_raw(x, n, &d); } break;
      case ATT: { f_attractive_sector_data_t d; d.xopt = aux; r = f_attractive_sector_raw(x, n, &d); } break;
      case BUE: r = f_bueche_rastrigin_raw(x, n); break; case RAS: r = f_rastrigin_raw(x, n); break; case DPO: r = f_different_powers_raw(x, n); break;
      case ROS: r = f_rosenbrock_raw(x, n); break; case SCH: r = f_schaffers_raw(x, n); break; case RID: r = f_sharp_ridge_raw(x, n); break;
      case KAT: r = f_katsuura_raw(x, n); break; case GRI: { f_griewank_rosenbrock_data_t d; d.facftrue = facf; r = f_griewank_rosenbrock_raw(x, n, &d); } break;
      case SWE: r = f_schwefel_raw(x, n); break; case SWG: r = f_schwefel_generalized_raw(x, n); break; case LIN: r = f_linear_slope_raw(x, n, aux); break;
      case WEI: { f_weierstrass_data_t d; d.f0 = 0; for (i = 0; i < 12; i++) { d.ak[i] = pow(0.5, (double)i); d.bk[i] = pow(3., (double)i); d.f0 += d.ak[i] * cos(2 * coco_pi * d.bk[i] * 0.5); } r = f_weierstrass_raw(x, n, &d);
        if (!wild) { known = 1; e = 0; for (i = 0; i < n; i++) for (j = 0; j < 12; j++) e += d.ak[j] * (cos(2 * coco_pi * d.bk[j] * (x[i] + 0.5)) - cos(coco_pi * d.bk[j])); e = 10 * (e / (double)n) * (e / (double)n) * (e / (double)n); tol = 1e-6; } } break;
      case DISG: { f_discus_generalized_versatile_data_t d; d.proportion_short_axes_denom = den; r = f_discus_generalized_raw(x, n, &d); } break;
      case CIGG: { f_bent_cigar_generalized_versatile_data_t d; d.proportion_long_axes_denom = den; r = f_bent_cigar_generalized_raw(x, n, &d); } break;
      case RIDG: { f_sharp_ridge_generalized_versatile_data_t d; d.proportion_of_linear_dims = den; r = f_sharp_ridge_generalized_raw(x, n, &d); } break;
      case STEP: { f_step_ellipsoid_data_t d; double y1[NM], y2[NM]; for (i = 0; i < n; i++) y1[i] = y2[i] = rnd(-9, 9); d.x = y1; d.xx = y2; d.xopt = aux; d.fopt = fopt; d.penalty_scale = ps; d.rot1 = r1; d.rot2 = r2; r = f_step_ellipsoid_raw(x, n, &d); } break;
      case LUN: { f_lunacek_bi_rastrigin_data_t d; double y1[NM], y2[NM]; for (i = 0; i < n; i++) y1[i] = y2[i] = rnd(-9, 9); d.x_hat = y1; d.z = y2; d.xopt = aux; d.rot1 = r1; d.rot2 = r2; r = f_lunacek_bi_rastrigin_raw(x, n, &d); } break;
      case GAL: { f_gallagher_data_t d; double pv[3] = {10, 9, 1.1}, xl[NM][3], sc[3][NM], *pl[NM], *psc[3]; for (i = 0; i < n; i++) { pl[i] = xl[i]; for (j = 0; j < 3; j++) { xl[i][j] = j ? (double)((i * 7 + j * 5) % 9) - 4 : 0; sc[j][i] = 0.1 + (double)((i + 3 * j) % 5); } } for (j = 0; j < 3; j++) psc[j] = sc[j];
          d.rotation = r1; d.x_local = pl; d.arr_scales = psc; d.number_of_peaks = 3; d.peak_values = pv; d.penalty_scale = ps; r = f_gallagher_raw(x, n, &d);
          if (!wild) { double best = 0, f; known = 1; e = 0; tol = 1e-7;
            for (j = 0; j < 3; j++) { double s = 0; for (i = 0; i < n; i++) { double z = 0; size_t l; for (l = 0; l < n; l++) z += m1[i][l] * x[l]; s += sc[j][i] * sq(z - xl[i][j]); } s = pv[j] * exp(-s / 2 / (double)n); if (s > best) best = s; }
            f = 10 - best; if (f > 0) { double l = log(f) * 10; f = exp((l + 0.49 * (sin(l) + sin(0.79 * l))) / 10); } e = f * f + ps * pen; } } break;
      default: return;
    }
    if (t) v2 = r; else v = r;
  }
  A(14, nanp || memcmp(x, x0, n * sizeof(double)) == 0, "the point is not modified");
  A(14, v == v2 || (v != v && v2 != v2), "the same point has the same value again");
  if (nanp) { if (k != DISG && k != CIGG) A(14, v != v, "a NaN coordinate gives NaN"); return; }
  A(14, v == v, "no NaN from finite coordinates");
  if (known && isfinite(e)) A(14, close_(v, e, tol), "documented formula of the benchmark function");
  if (k < SWE && k != GRI) A(14, v >= 0, "no value below the optimum");
  if (k == LIN || k == LUN || k == GAL) A(14, v >= 0, "no value below the optimum");
  if (k == GRI) A(14, v >= -1e-9, "no value below the optimum");
  if (k == SWE || k == SWG || k == WEI) A(14, v >= -1e-7, "no value below the optimum");
  if (k == STEP) A(14, v >= fopt, "no value below the optimum");
  if (opt && (k < SWE || k == LIN)) A(14, k == GRI ? fabs(v) < 1e-9 : v == 0, "value 0 at the optimum");
}
static double fv(coco_problem_t *p, const double *x, double *y) { size_t j; for (j = 0; j < p->number_of_objectives; j++) y[j] = 77; coco_evaluate_function(p, x, y); return y[0]; }
static void suite(void) {
  static const struct { const char *n; size_t nf, nd, dims[6], f0; int kind; } S[] = {
    {"bbob", 24, 5, {2, 3, 5, 10, 20}, 0, 1}, {"bbob-boxed", 24, 5, {2, 3, 5, 10, 20}, 0, 1}, {"bbob-constrained", 54, 4, {2, 3, 5, 10}, 0, 2}, {"bbob-largescale", 24, 2, {20, 40}, 0, 1},
    {"bbob-mixint", 24, 3, {5, 10, 20}, 0, 3}, {"bbob-biobj", 55, 4, {2, 3, 5, 10}, 0, 4}, {"bbob", 24, 5, {2, 3, 5, 10, 20}, 0, 1}, {"bbob", 24, 1, {40}, 0, 1}};
  size_t si = vf_range(0, sizeof S / sizeof *S - 1), i, j, m, n, it; char o[200], io[64]; coco_suite_t *s; coco_problem_t *p, *q, *o2 = NULL;
  double pts[6][NM], vals[6][2], y[8], opt[NM], best[2];
  size_t f = vf_range(1, S[si].nf), di = vf_range(0, S[si].nd - 1), in = vf_range(1, vf_range(0, 1) ? 15 : 60); long pi;
  if (!strcmp(S[si].n, "bbob-biobj") && in > 10) in = in % 10 + 1;
  sprintf(io, "instances: %lu-%lu", (unsigned long)in, (unsigned long)in); sprintf(o, "function_indices: %lu dimensions: %lu", (unsigned long)f, (unsigned long)S[si].dims[di]);
  s = coco_suite(S[si].n, io, o);
  if (!s) return;
  q = coco_suite_get_next_problem(s, NULL); if (!q) { coco_suite_free(s); return; } pi = (long)coco_problem_get_suite_dep_index(q); p = coco_suite_get_problem(s, (size_t)pi); n = p->number_of_variables; m = p->number_of_objectives;
  if (m > 2) goto end;
  for (j = 0; j < m; j++) best[j] = p->best_value[j];
  for (i = 0; i < n; i++) opt[i] = p->best_parameter ? p->best_parameter[i] : NAN;
  if (vf_range(0, 2) == 0) { char oo[200]; coco_suite_t *s2; sprintf(oo, "function_indices: %lu dimensions: %lu", (unsigned long)vf_range(1, S[si].nf), (unsigned long)S[si].dims[0]); s2 = coco_suite(S[si].n, io, oo); if (s2) { q = coco_suite_get_next_problem(s2, NULL); if (q) o2 = coco_suite_get_problem(s2, coco_problem_get_suite_dep_index(q)); coco_suite_free(s2); q = NULL; } }
  q = coco_suite_get_problem(s, (size_t)pi);
  if (!coco_vector_contains_nan(opt, n) && m == 1) {
    double c[NM]; int feas = 1;
    fv(q, opt, y);
    A(14, close_(y[0], best[0], 1e-10), "the best parameter has the best value");
    (void)c; (void)feas;
  }
  for (it = 0; it < 6; it++) {
    int mode = (int)vf_range(0, 5);
    for (i = 0; i < n; i++) {
      double lo = p->smallest_values_of_interest[i], hi = p->largest_values_of_interest[i];
      pts[it][i] = mode == 0 ? rnd(lo, hi) : mode == 1 ? (opt[i] == opt[i] ? opt[i] : 0) + rnd(-1, 1) * 1e-4 : mode == 2 ? (opt[i] == opt[i] && vf_range(0, 2) ? opt[i] : rnd(lo, hi)) : mode == 3 ? rnd(-8, 8) : mode == 4 ? (vf_range(0, 3) ? rnd(-100, 100) : 1e20 * rnd(-1, 1)) : (opt[i] == opt[i] ? opt[i] : 0) + rnd(-1, 1) * 1e-2;
    }
    fv(p, pts[it], y);
    for (j = 0; j < m; j++) {
      vals[it][j] = y[j];
      A(14, y[j] == y[j], "no NaN from finite coordinates");
      if (S[si].kind != 2) A(14, y[j] >= best[j] - 1e-9 * (1 + fabs(best[j])), "no value below the optimum");
      else { double c[NM * 4]; size_t l; int feas = 1; if (p->number_of_constraints <= NM * 4) { coco_evaluate_constraint(p, pts[it], c); for (l = 0; l < p->number_of_constraints; l++) if (!(c[l] <= 0)) feas = 0; if (feas) A(14, y[j] >= best[j] - 1e-6 * (1 + fabs(best[j])), "no feasible value below the optimum"); } }
    }
  }
  for (it = 6; it-- > 0;) {
    if (o2 && vf_range(0, 1)) fv(o2, pts[it], y);
    fv(q, pts[it], y);
    for (j = 0; j < m; j++) A(14, y[j] == vals[it][j], "the value depends on the point only: another instance, another order, other problems in between");
    if (vf_range(0, 3) == 0) { fv(p, pts[it], y); for (j = 0; j < m; j++) A(14, y[j] == vals[it][j], "the value depends on the point only: evaluated again"); }
  }
  { double z[NM]; memcpy(z, pts[0], sizeof z); z[vf_range(0, n - 1)] = NAN; fv(p, z, y); for (j = 0; j < m; j++) A(14, y[j] != y[j], "a NaN coordinate gives NaN"); }
  coco_problem_free(q);
  if (o2) coco_problem_free(o2);
end:
  coco_problem_free(p);
  coco_suite_free(s);
}
void harness(void) { size_t k; if (vf_range(0, 19)) for (k = 0; k < 20; k++) raw(); else suite(); }
