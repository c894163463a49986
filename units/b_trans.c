/* Native harness for the variable (P07) and objective (P08) transformations and the optimum/metadata bookkeeping of their
 * constructors (P09): random chains of transformations around a recording problem, compared with the documented maps. */
#define NDEBUG
#include "vf.h"
#include "coco_random.c"
#include "coco_suite.c"
#include "coco_observer.c"
#include "coco_archive.c"
#define A(P, c, m) do { if (VF_P == (P)) VF_ASSERT(c, m); } while (0)
#define NM 8
enum { SHIFT, SCALE, OSZ, ASY, BRS, COND, ROUND, XHAT, XHATG, ZHAT, PERM, IPERM, BOX, AFF, BROT, NVARS,
       OSHIFT = NVARS, OSCALE, OPOW, OOSZ, OPEN, ONORM, GAUSS, CAUCHY, UNIFORM, NKIND };
typedef struct { int k; double a, v[NM], M[NM * NM], b[NM]; size_t P[NM], P2[NM], bs[NM], nb; long seed; int flag; } lay_t;
static size_t N, M_, C;
static double rec[NM], crec[NM], yv[4], cv[4];
static int calls, ccalls, cupd;

static void in_fn(coco_problem_t *p, const double *x, double *y) { size_t j; (void)p; calls++; memcpy(rec, x, N * sizeof(double)); for (j = 0; j < M_; j++) y[j] = yv[j]; }
static void in_cons(coco_problem_t *p, const double *x, double *y, int u) { size_t j; (void)p; ccalls++; cupd = u; memcpy(crec, x, N * sizeof(double)); for (j = 0; j < C; j++) y[j] = cv[j]; }
static int close_(double a, double b, double tol) { double s; if (a == b || (a != a && b != b)) return 1; s = fabs(a) > fabs(b) ? fabs(a) : fabs(b); return fabs(a - b) <= tol * (s > 1 ? s : 1); }
static double osz(double v, double al) {
  double l;
  if (v == 0) return 0;
  l = log(fabs(v)) / al;
  return v > 0 ? pow(exp(l + 0.49 * (sin(l) + sin(0.79 * l))), al) : -pow(exp(l + 0.49 * (sin(0.55 * l) + sin(0.31 * l))), al);
}
/* documented image of x under one variable transformation; returns 0 if the point is rejected (outside the box) */
static int image(const lay_t *l, const double *x, double *z, const double *lo, const double *hi) {
  size_t i, j, r; double d = N > 1 ? (double)N - 1 : 1;
  memcpy(z, x, N * sizeof(double));
  for (i = 0; i < N; i++) switch (l->k) {
    case SHIFT: z[i] = x[i] - l->v[i]; break;
    case SCALE: z[i] = l->a * x[i]; break;
    case OSZ: z[i] = osz(x[i], 0.1); break;
    case ASY: z[i] = x[i] > 0 ? pow(x[i], 1 + l->a * (double)i / d * sqrt(x[i])) : x[i]; break;
    case BRS: z[i] = pow(10, 0.5 * (double)i / d) * (x[i] > 0 && i % 2 == 0 ? 10 : 1) * x[i]; break;
    case COND: z[i] = pow(l->a, 0.5 * (double)i / d) * x[i]; break;
    case ROUND: z[i] = fabs(x[i]) > 0.5 ? floor(x[i] + 0.5) : floor(l->a * x[i] + 0.5) / l->a; break;
    case XHAT: { double u[NM]; bbob2009_unif(u, N, l->seed); z[i] = u[i] < 0.5 ? -x[i] : x[i]; } break;
    case XHATG: z[i] = 2 * l->v[i] * x[i]; break;
    case ZHAT: z[i] = i == 0 ? x[0] : x[i] + 0.25 * (x[i - 1] - 2 * fabs(l->v[i - 1])); break;
    case PERM: z[i] = x[l->P[i]]; break;
    case IPERM: z[l->P[i]] = x[i]; break;
    case BOX: if (x[i] < lo[i] || x[i] > hi[i]) return 0; break;
    case AFF: z[i] = l->b[i]; for (j = 0; j < N; j++) z[i] += x[j] * l->M[i * N + j]; break;
    case BROT: for (r = 0, j = 0; r + l->bs[j] <= i; r += l->bs[j++]) ; { size_t e = r + l->bs[j]; z[i] = 0; for (j = r; j < e; j++) z[i] += l->M[i * N + j] * x[j]; } break;
    default: break;
  }
  return 1;
}
static double pen(const double *x, const double *lo, const double *hi) { size_t i; double s = 0; for (i = 0; i < N; i++) { if (x[i] > hi[i]) s += (x[i] - hi[i]) * (x[i] - hi[i]); else if (x[i] < lo[i]) s += (lo[i] - x[i]) * (lo[i] - x[i]); } return s; }
static double obj(const lay_t *l, size_t j, double y, const double *x, const double *lo, const double *hi) {
  switch (l->k) {
    case OSHIFT: return y + l->a;
    case OSCALE: return y * l->a;
    case OPOW: return pow(y, l->a);
    case OOSZ: return osz(y, 0.1);
    case OPEN: return y + l->a * pen(x, lo, hi);
    case ONORM: return j == 0 ? y * (N > 40 ? 40. / (double)N : 1) : y;
    default: return y;
  }
}
static double rnd(double lo, double hi) { return lo + (hi - lo) * (double)vf_range(0, 1000003) / 1000003.0; }
static double coord(void) { size_t s = vf_range(0, 9); return s == 0 ? 0 : s == 1 ? -0.5 : s == 2 ? 0.5 : s == 3 ? 5 : s == 4 ? -5 : s == 5 ? rnd(-100, 100) : s == 6 ? rnd(-0.01, 0.01) : rnd(-6, 6); }
static void perm(size_t *P) { size_t i, j, t; for (i = 0; i < N; i++) P[i] = i; for (i = N; i > 1; i--) { j = vf_range(0, i - 1); t = P[j]; P[j] = P[i - 1]; P[i - 1] = t; } }
static void ortho(double *M, size_t r, size_t n) { /* rotation block of size n at (r, r): product of plane rotations */
  size_t i, j, k;
  for (i = 0; i < n; i++) for (j = 0; j < n; j++) M[(r + i) * N + r + j] = i == j;
  for (k = 0; k < n; k++) { double t = rnd(0, 6.28), c = cos(t), s = sin(t); size_t p = vf_range(0, n - 1), q = vf_range(0, n - 1);
    if (p == q) continue;
    for (j = 0; j < n; j++) { double u = M[(r + p) * N + r + j], w = M[(r + q) * N + r + j]; M[(r + p) * N + r + j] = c * u - s * w; M[(r + q) * N + r + j] = s * u + c * w; } }
}
static f_step_ellipsoid_versatile_data_t vstep; static f_lunacek_bi_rastrigin_versatile_data_t vlun;

static coco_problem_t *wrap(coco_problem_t *p, lay_t *l) {
  size_t i, r;
  memset(l->M, 0, sizeof l->M);
  l->a = rnd(0.1, 3);
  for (i = 0; i < N; i++) { l->v[i] = coord(); l->b[i] = coord(); }
  switch (l->k) {
    case SHIFT: l->flag = C > 0 && vf_range(0, 3) == 0; return transform_vars_shift(p, l->v, l->flag);
    case SCALE: return transform_vars_scale(p, l->a);
    case OSZ: return transform_vars_oscillate(p);
    case ASY: return transform_vars_asymmetric(p, l->a);
    case BRS: return transform_vars_brs(p);
    case COND: l->a = rnd(1, 1000); return transform_vars_conditioning(p, l->a);
    case ROUND: l->a = 10; p->versatile_data = &vstep; return transform_vars_round_step(p, l->a);
    case XHAT: l->seed = (long)vf_range(1, 100000); return transform_vars_x_hat(p, l->seed);
    case XHATG: for (i = 0; i < N; i++) l->v[i] = vf_range(0, 1) ? 1 : -1; p->versatile_data = &vlun; return transform_vars_x_hat_generic(p, l->v);
    case ZHAT: return transform_vars_z_hat(p, l->v);
    case PERM: perm(l->P); return transform_vars_permutation(p, l->P, N);
    case IPERM: perm(l->P); return transform_vars_inverse_permutation(p, l->P, N);
    case BOX: return transform_vars_enforce_box(p);
    case AFF: l->flag = (int)vf_range(0, 1); if (l->flag) ortho(l->M, 0, N); else for (i = 0; i < N * N; i++) l->M[i] = rnd(-2, 2);
      return transform_vars_affine(p, l->M, l->b, N);
    case BROT: { double *B[NM]; coco_problem_t *q;
      for (l->nb = 0, r = 0; r < N; r += l->bs[l->nb++]) { l->bs[l->nb] = vf_range(1, N - r); ortho(l->M, r, l->bs[l->nb]); }
      for (i = 0, r = 0; i < l->nb; r += l->bs[i++]) { size_t t; for (t = 0; t < l->bs[i]; t++) B[r + t] = &l->M[(r + t) * N + r]; }
      q = transform_vars_blockrotation(p, (const double *const *)B, N, l->bs, l->nb);
      return q; }
    case OSHIFT: l->a = rnd(-100, 100); return transform_obj_shift(p, l->a);
    case OSCALE: return transform_obj_scale(p, l->a);
    case OPOW: l->a = rnd(0.3, 2); return transform_obj_power(p, l->a);
    case OOSZ: return transform_obj_oscillate(p);
    case OPEN: l->a = rnd(1, 200); return transform_obj_penalize(p, l->a);
    case ONORM: return transform_obj_norm_by_dim(p);
  }
  return NULL;
}

void harness(void) {
  lay_t L[3]; size_t depth = vf_range(1, 3), i, j, s; coco_problem_t *p, *q, *st[4]; double x[NM], xs[NM], z[3][NM], y[4], e[4], lo[NM], hi[NM], bp[NM]; int ok = 1, cok = 1;
  N = vf_range(2, NM); M_ = 1; C = vf_range(0, 2) ? 0 : vf_range(1, 3);
  for (j = 0; j < 4; j++) { yv[j] = rnd(0, 100); cv[j] = rnd(-5, 5); }
  vlun.x_hat = calloc(NM, sizeof(double));
  p = coco_problem_allocate(N, M_, C);
  p->evaluate_function = in_fn; p->evaluate_constraint = C ? in_cons : NULL;
  coco_problem_set_id(p, "%s", vf_range(0, 1) ? "schwefel_stub" : "stub"); coco_problem_set_name(p, "%s", "stub"); coco_problem_set_type(p, "%s", "type");
  for (i = 0; i < N; i++) { lo[i] = rnd(-6, -4); hi[i] = rnd(4, 6); p->smallest_values_of_interest[i] = lo[i]; p->largest_values_of_interest[i] = hi[i]; p->best_parameter[i] = 0; }
  if (vf_range(0, 1)) for (i = 0; i < N; i++) p->best_parameter[i] = rnd(-4, 4);
  if (vf_range(0, 1)) { p->initial_solution = coco_allocate_vector(N); for (i = 0; i < N; i++) p->initial_solution[i] = rnd(-4, 4); }
  p->best_value[0] = rnd(0, 3); p->number_of_integer_variables = vf_range(0, N); p->suite_dep_function = 7; p->suite_dep_instance = 11; p->suite_dep_index = 13;
  p->final_target_delta[0] = 1e-5;
  st[0] = p;
  for (s = 0; s < depth; s++) { /* L[depth-1] is the outermost layer */
    int k = VF_P == 7 ? (int)vf_range(0, NVARS - 1) : VF_P == 8 ? (int)vf_range(OSHIFT, ONORM) : (int)vf_range(0, ONORM);
    double ib[NM], iv, in0[NM]; int hadi, badbp = 0;
    if (((k == ROUND || k == XHAT || k == BOX) && s + 1 < depth) || (k == XHATG && depth > 1)) k = SHIFT;
    L[s].k = k;
    q = st[s];
    for (i = 0; i < N; i++) { ib[i] = q->best_parameter[i]; badbp |= ib[i] != ib[i]; if (q->initial_solution) in0[i] = q->initial_solution[i]; }
    iv = q->best_value[0]; hadi = q->initial_solution != NULL;
    st[s + 1] = q = wrap(st[s], &L[s]);
    if (VF_P == 9) {
      int nan = 0, anan = 1, nz = 0;
      VF_ASSERT(coco_problem_get_dimension(q) == N && coco_problem_get_number_of_objectives(q) == M_ && coco_problem_get_number_of_constraints(q) == C
                && coco_problem_get_number_of_integer_variables(q) == p->number_of_integer_variables, "a transformation keeps the dimension and the numbers of objectives, constraints and integer variables");
      for (i = 0; i < N; i++) VF_ASSERT(coco_problem_get_smallest_values_of_interest(q)[i] == lo[i] && coco_problem_get_largest_values_of_interest(q)[i] == hi[i], "a transformation keeps the region of interest");
      VF_ASSERT(!strcmp(coco_problem_get_id(q), coco_problem_get_id(p)) && !strcmp(coco_problem_get_type(q), "type"), "a transformation keeps the id and the type");
      VF_ASSERT(q->suite_dep_function == 7 && q->suite_dep_instance == 11 && q->suite_dep_index == 13, "a transformation keeps function, instance and index");
      VF_ASSERT(close_(coco_problem_get_final_target_fvalue1(q), q->best_value[0] + 1e-5, 0), "a transformation keeps the target precision");
      for (i = 0; i < N; i++) { nan |= q->best_parameter[i] != q->best_parameter[i]; anan &= q->best_parameter[i] != q->best_parameter[i]; nz |= ib[i] != 0; }
      if (k == SHIFT && !L[s].flag) { for (i = 0; i < N; i++) VF_ASSERT(close_(q->best_parameter[i], ib[i] + L[s].v[i], 1e-12), "shifting x shifts the best parameter");
        for (i = 0; hadi && i < N; i++) VF_ASSERT(q->initial_solution && close_(q->initial_solution[i], in0[i] + L[s].v[i], 1e-12), "shifting x shifts the initial solution"); }
      VF_ASSERT((q->initial_solution != NULL) == hadi, "an initial solution is kept");
      if (k >= NVARS) for (i = 0; i < N; i++) VF_ASSERT(close_(q->best_parameter[i], ib[i], 0), "an objective transformation keeps the best parameter");
      if (!badbp && !nan && k < NVARS && (k == SCALE || k == XHAT || k == BOX || (k == AFF && (L[s].flag)) || k == BRS || k == COND || k == ASY || (k == OSZ && !nz) || k == BROT)) {
        double im[NM]; image(&L[s], q->best_parameter, im, lo, hi);
        for (i = 0; i < N; i++) VF_ASSERT(close_(im[i], ib[i], 1e-9), "the best parameter is mapped to the best parameter of the wrapped problem");
      }
      if (k != ZHAT && !badbp && !nz) VF_ASSERT(!nan, "a best parameter of zero stays known");
      if (k < NVARS) VF_ASSERT(close_(q->best_value[0], iv, 0), "a variable transformation keeps the best value");
      else if (k == OPEN) VF_ASSERT(close_(q->best_value[0], iv, 0), "penalizing keeps the best value");
      else if (k == OSHIFT || k == OSCALE) VF_ASSERT(close_(q->best_value[0], obj(&L[s], 0, iv, x, lo, hi), 1e-12), "the best value is transformed like the objective");
      else if ((k == OPOW || k == OOSZ) && !badbp) { double t[1]; coco_evaluate_function(q, q->best_parameter, t); VF_ASSERT(close_(q->best_value[0], t[0], 1e-12), "the best value is the value of the best parameter"); }
    }
  }
  q = st[depth];
  for (i = 0; i < N; i++) xs[i] = x[i] = coord();
  if (VF_P == 7 || VF_P == 8) {
    double cur[NM], cc[NM]; size_t ev = q->evaluations;
    memcpy(cur, x, sizeof cur); memcpy(cc, x, sizeof cc);
    for (s = depth; s-- > 0 && ok;) {
      memcpy(z[s], cur, sizeof cur);
      if (L[s].k < NVARS && !(L[s].k == SHIFT && L[s].flag)) ok = image(&L[s], z[s], cur, lo, hi);
      for (i = 0; i < N; i++) VF_ASSUME(fabs(cur[i]) < 1e60);
    }
    calls = ccalls = 0;
    coco_evaluate_function(q, x, y);
    VF_ASSERT(!memcmp(x, xs, N * sizeof(double)), "the point handed in is not modified");
    if (!ok) { VF_ASSERT(calls == 0 && VF_PINF(y[0]), "outside the box the value is +inf and the wrapped problem is not evaluated"); }
    else {
      VF_ASSERT(calls == 1, "the wrapped problem is evaluated exactly once");
      for (i = 0; i < N; i++) VF_ASSERT(close_(rec[i], cur[i], 1e-9), "the wrapped problem is evaluated at the documented image of x");
      for (j = 0; j < M_; j++) { e[j] = yv[j]; for (s = 0; s < depth; s++) if (L[s].k >= NVARS) e[j] = obj(&L[s], j, e[j], z[s], lo, hi);
        VF_ASSERT(close_(y[j], e[j], 1e-9), "the values of the wrapped problem come back, mapped as documented"); }
    }
    VF_ASSERT(q->evaluations == ev + 1, "one evaluation counted");
    if (VF_P == 7 && L[depth - 1].k == XHATG && ok) for (i = 0; depth == 1 && i < N; i++) VF_ASSERT(vlun.x_hat[i] == rec[i], "x_hat is passed on through the versatile data");
    if (C) {
      double g[4]; for (s = depth; s-- > 0;) { int k = L[s].k; double t[NM]; if (k == SHIFT || k == OSZ || k == ASY || k == AFF) { memcpy(t, cc, sizeof t); image(&L[s], t, cc, lo, hi); } else if (k < NVARS) cok = 0; }
      calls = ccalls = 0; ev = q->evaluations;
      if (cok) {
      coco_evaluate_constraint(q, x, g);
      VF_ASSERT(!memcmp(x, xs, N * sizeof(double)) && q->evaluations == ev && calls == 0, "evaluating the constraints does not evaluate the objectives");
      VF_ASSERT(ccalls == 1 && cupd, "the constraints of the wrapped problem are evaluated exactly once");
      for (i = 0; i < N; i++) VF_ASSERT(close_(crec[i], cc[i], 1e-9), "the constraints are evaluated at the documented image of x");
      for (j = 0; j < C; j++) VF_ASSERT(g[j] == cv[j], "the constraint values come back unchanged");
      }
    }
  }
  coco_problem_free(q);
  free(vlun.x_hat);
}
