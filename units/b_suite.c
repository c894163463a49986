/* Native harness (public interface only) for suite iteration (P04), indexing (P05) and filtering (P06). */
#include "vf.h"
#include "coco_random.c"
#include "coco_suite.c"
#include "coco_observer.c"
#include "coco_archive.c"
#define A(P, c, m) do { if (VF_P == (P)) VF_ASSERT(c, m); } while (0)

static const struct { const char *name; size_t nf, nd, dims[8], f0; } SU[] = {
  {"toy", 6, 5, {2, 3, 5, 10, 20}, 0}, {"bbob", 24, 6, {2, 3, 5, 10, 20, 40}, 0}, {"bbob-boxed", 24, 6, {2, 3, 5, 10, 20, 40}, 0},
  {"bbob-biobj", 55, 6, {2, 3, 5, 10, 20, 40}, 0}, {"bbob-noisy", 30, 6, {2, 3, 5, 10, 20, 40}, 100}, {"bbob-constrained", 54, 6, {2, 3, 5, 10, 20, 40}, 0},
  {"bbob-biobj-ext", 92, 6, {2, 3, 5, 10, 20, 40}, 0}, {"bbob-mixint", 24, 6, {5, 10, 20, 40, 80, 160}, 0}, {"bbob-biobj-mixint", 92, 6, {5, 10, 20, 40, 80, 160}, 0}, {"bbob-largescale", 24, 6, {20, 40, 80, 160, 320, 640}, 0}};

/* writes a list of ranges over [1, n] to s and the membership to in[1..n]; open ranges as documented */
static void gen_ranges(char *s, size_t n, char *in, int open, size_t maxk) {
  size_t k = vf_range(1, maxk), i, j; char *p = s;
  memset(in, 0, n + 1); *p = 0;
  for (i = 0; i < k; i++) {
    size_t a = vf_range(1, n), b = vf_range(0, 3) ? a : vf_range(a, n), st = open ? vf_range(0, 9) : 9;
    if (i) p += sprintf(p, ",");
    if (b - a > 5 && maxk > 3) b = a + 5;
    if (st == 0) { p += sprintf(p, "-%lu", (unsigned long)a); b = a; a = 1; }
    else if (st == 1) { p += sprintf(p, "%lu-", (unsigned long)a); b = n; }
    else if (a == b) p += sprintf(p, "%lu", (unsigned long)a);
    else p += sprintf(p, "%lu-%lu", (unsigned long)a, (unsigned long)b);
    for (j = a; j <= b; j++) in[j] = 1;
  }
}
static const char *sp(void) { static const char *S[] = {":", ": ", ":  ", " : "}; return S[vf_range(0, 2)]; }

void harness(void) {
  size_t si = vf_range(0, 13), k0, i, j, k, nin = 0; coco_suite_t *s; coco_problem_t *p;
  char inst_s[512] = "", fs[512], is[512], ds[512], opt[2048] = "", part[4][600]; size_t np = 0, order[4];
  size_t inst[256]; char fin[100], iin[260], din[16]; int small = 0, hasf = 0, hasi = 0, hasd = 0;
  if (si >= sizeof SU / sizeof *SU) si = 0;
  /* instances */
  { char *q = inst_s; size_t m = vf_range(1, 4); q += sprintf(q, "instances%s", sp());
    for (i = 0; i < m; i++) {
      size_t a = vf_range(1, 20), b = vf_range(0, 2) ? a : a + vf_range(0, 3);
      if (i) q += sprintf(q, ",");
      q += a == b ? sprintf(q, "%lu", (unsigned long)a) : sprintf(q, "%lu-%lu", (unsigned long)a, (unsigned long)b);
      for (j = a; j <= b; j++) inst[nin++] = j;
    } }
  /* a year selects the instances of that year; of year and instances the first one counts */
  if (si != 0 && vf_range(0, 4) == 0) {
    static const struct { int year, lo, hi; } Y[] = {{2024, 101, 110}, {2023, 101, 110}, {2022, 91, 100}, {2021, 91, 100}, {2020, 71, 80}, {2018, 71, 80}, {2017, 61, 70}, {2016, 51, 60}, {2015, 41, 50}, {2014, 31, 40}, {2013, 31, 40}, {2012, 21, 30}, {2011, 6, 15}, {2010, 6, 15}, {2009, 0, 0}};
    size_t y = vf_range(0, 14), how = vf_range(0, 2); int year = si == 2 ? 2023 : si == 4 ? 2009 : Y[y].year; char t[512];
    if (si == 2) y = 1;
    strcpy(t, inst_s);
    if (how == 0) sprintf(inst_s, "year%s%d", sp(), year); else if (how == 1) sprintf(inst_s, "year%s%d %s", sp(), year, t); else sprintf(inst_s, "%s year%s%d", t, sp(), year);
    if (how < 2) {
      nin = 0;
      if (si == 1 || si == 2) {
        if (Y[y].lo == 0) for (i = 0; i < 15; i++) inst[nin++] = i % 5 + 1;
        else { for (j = 1; j <= 5; j++) inst[nin++] = j; for (j = Y[y].lo; j <= (size_t)Y[y].hi; j++) inst[nin++] = j; }
      } else for (j = 1; j <= (year == 2016 && (si == 3 || si == 6) ? 10 : 15); j++) inst[nin++] = j;
    }
  }
  memset(fin, 1, sizeof fin); memset(iin, 1, sizeof iin); memset(din, 1, sizeof din);
  if (si != 0 || vf_range(0, 2)) { hasf = 1; gen_ranges(fs, SU[si].nf, fin, 1, 3); sprintf(part[np++], "function_indices%s%s", sp(), fs); }
  if (vf_range(0, 1)) { hasi = 1; gen_ranges(is, nin, iin, 1, 3); sprintf(part[np++], "instance_indices%s%s", sp(), is); }
  k0 = k = vf_range(0, 2); if (si != 0 && k == 0) k0 = k = 1;
  if (k == 1) { hasd = 1; gen_ranges(ds, si ? 3 : SU[si].nd, din, si == 0, 3); for (i = 4; i < 16 && si; i++) din[i] = 0; sprintf(part[np++], "dimension_indices%s%s", sp(), ds); }
  if (k == 2) {
    size_t m = vf_range(1, 3); char *q = ds; hasd = 1; memset(din, 0, sizeof din);
    for (i = 0; i < m; i++) { size_t a = vf_range(1, si ? 3 : SU[si].nd); din[a] = 1; q += sprintf(q, "%s%lu", i ? "," : "", (unsigned long)SU[si].dims[a - 1]); }
    sprintf(part[np++], "dimensions%s%s", sp(), ds);
  }
  for (i = 0; i < np; i++) order[i] = i;
  for (i = np; i > 1; i--) { j = vf_range(0, i - 1); k = order[j]; order[j] = order[i - 1]; order[i - 1] = k; }
  if (k0 >= 1 && vf_range(0, 4) == 0) { /* both ways to select dimensions: the first one in the options counts */
    for (i = 0; i < np && strncmp(part[order[i]], "dimension", 9); i++) ;
    sprintf(part[order[i]] + strlen(part[order[i]]), k0 == 1 ? " dimensions%s2,%lu" : " dimension_indices%s%lu", sp(), (unsigned long)si == 7 || si == 8 ? vf_range(1, 2) * 5 : si == 9 ? vf_range(1, 2) * 20 : vf_range(2, 3));
  }
  for (i = 0; i < np; i++) { strcat(opt, part[order[i]]); strcat(opt, i + 1 < np ? " " : ""); }
  (void)hasf; (void)hasi; (void)hasd;
#ifdef VF_TRACE
  printf("%s|%s|%s\n", SU[si].name, inst_s, opt);
#endif
  vfg_error_allowed = 0;
  s = coco_suite(SU[si].name, inst_s, opt);
  A(6, s != NULL, "valid options give a suite");
  VF_ASSUME(s != NULL);
  A(6, s->number_of_instances == nin && s->number_of_functions == SU[si].nf && s->number_of_dimensions == SU[si].nd, "sizes of the suite");
  VF_ASSUME(s->number_of_instances == nin && s->number_of_functions == SU[si].nf && s->number_of_dimensions == SU[si].nd);
  for (i = 0; i < nin; i++) A(6, coco_suite_get_instance_from_instance_index(s, i) == (iin[i + 1] ? inst[i] : 0), "an instance is kept iff its index is selected");
  for (i = 0; i < SU[si].nf; i++) A(6, coco_suite_get_function_from_function_index(s, i) == (fin[i + 1] ? i + 1 + SU[si].f0 : 0), "a function is kept iff its index is selected");
  for (i = 0; i < SU[si].nd; i++) A(6, coco_suite_get_dimension_from_dimension_index(s, i) == (din[i + 1] ? SU[si].dims[i] : 0), "a dimension is kept iff it is selected");
  { size_t nf_ = 0, nd_ = 0, ni_ = 0;
    for (i = 0; i < nin; i++) ni_ += iin[i + 1] != 0;
    for (i = 0; i < SU[si].nf; i++) nf_ += fin[i + 1] != 0;
    for (i = 0; i < SU[si].nd; i++) nd_ += din[i + 1] != 0;
    small = nf_ * nd_ * ni_ <= 60 && (VF_P == 4 || vf_range(0, 5) == 5); }
  if ((VF_P == 4 || VF_P == 6) && small) { /* complete iteration in lexicographic order */
    size_t d, f, t;
    for (d = 0; d < s->number_of_dimensions; d++) for (f = 0; f < s->number_of_functions; f++) for (t = 0; t < s->number_of_instances; t++) {
      size_t dv = VF_P == 6 ? (din[d + 1] ? SU[si].dims[d] : 0) : s->dimensions[d], fv = VF_P == 6 ? (fin[f + 1] ? f + 1 + SU[si].f0 : 0) : s->functions[f],
             tv = VF_P == 6 ? (iin[t + 1] ? inst[t] : 0) : s->instances[t];
      if (!dv || !fv || !tv) continue;
      p = coco_suite_get_next_problem(s, NULL);
      VF_ASSERT(p != NULL, "iteration reaches every selected problem");
      VF_ASSERT(coco_problem_get_dimension(p) == dv && p->suite_dep_function == fv && p->suite_dep_instance == tv, "iteration order: dimension, function, instance; filtered ones skipped");
      if (VF_P == 4) VF_ASSERT(coco_problem_get_suite_dep_index(p) == t + f * s->number_of_instances + d * s->number_of_instances * s->number_of_functions, "reported index of the problem");
      VF_ASSERT(coco_problem_get_suite(p) == s && s->current_problem == p, "the problem belongs to the suite");
    }
    VF_ASSERT(coco_suite_get_next_problem(s, NULL) == NULL, "iteration ends after the last selected problem");
  }
  if (VF_P == 5) {
    size_t total = s->number_of_dimensions * s->number_of_functions * s->number_of_instances, idx = vf_range(0, total - 1), f = 77, d = 77, t = 77, q;
    VF_ASSERT(coco_suite_get_number_of_problems(s) == total, "number of problems");
    coco_suite_decode_problem_index(s, idx, &f, &d, &t);
    VF_ASSERT(f < s->number_of_functions && d < s->number_of_dimensions && t < s->number_of_instances, "decoded indices are in range");
    VF_ASSERT(t + f * s->number_of_instances + d * s->number_of_instances * s->number_of_functions == idx, "decoding is instance first, then function, then dimension");
    VF_ASSERT(coco_suite_encode_problem_index(s, f, d, t) == idx, "encoding inverts decoding");
    if (s->dimensions[d] <= 20 || (s->dimensions[d] <= 80 && vf_range(0, 9) == 0)) {
      p = coco_suite_get_problem(s, idx);
      if (!s->functions[f] || !s->dimensions[d] || !s->instances[t]) VF_ASSERT(p == NULL, "a filtered-out problem is not available");
      else {
        VF_ASSERT(p != NULL && coco_problem_get_dimension(p) == s->dimensions[d] && p->suite_dep_function == s->functions[f] && p->suite_dep_instance == s->instances[t], "problem looked up by its index");
        VF_ASSERT(coco_problem_get_suite_dep_index(p) == idx, "the problem reports the index it was looked up by");
        coco_problem_free(p);
      }
    }
    VF_ASSERT(coco_suite_get_function_from_function_index(s, f) == s->functions[f] && coco_suite_get_dimension_from_dimension_index(s, d) == s->dimensions[d]
              && coco_suite_get_instance_from_instance_index(s, t) == s->instances[t], "numbers looked up by index");
    { size_t fv = vf_range(1, SU[si].nf) + SU[si].f0, dv = SU[si].dims[vf_range(0, si == 9 ? 2 : 3)], tv = vf_range(1, 24); int ok = 0; size_t a = 0, b = 0, c = 0;
      for (q = 0; q < s->number_of_functions && s->functions[q] != fv; q++) ; a = q;
      for (q = 0; q < s->number_of_dimensions && s->dimensions[q] != dv; q++) ; b = q;
      for (q = 0; q < s->number_of_instances && s->instances[q] != tv; q++) ; c = q;
      ok = a < s->number_of_functions && b < s->number_of_dimensions && c < s->number_of_instances;
      p = coco_suite_get_problem_by_function_dimension_instance(s, fv, dv, tv);
      VF_ASSERT((p != NULL) == ok, "lookup by numbers finds a problem iff all three are active");
      if (p) {
        VF_ASSERT(coco_problem_get_dimension(p) == dv && p->suite_dep_function == fv && p->suite_dep_instance == tv && coco_problem_get_suite_dep_index(p) == coco_suite_encode_problem_index(s, a, b, c), "lookup by numbers returns the first match");
        coco_problem_free(p);
      } }
  }
  coco_suite_free(s);
}
