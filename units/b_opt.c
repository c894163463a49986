/* Native harness (P15): option strings of suites and observers and the string helpers they are read with. */
#define _GNU_SOURCE
#define NDEBUG
#include "vf.h"
#include "coco_random.c"
#include "coco_suite.c"
#include "coco_observer.c"
#include "coco_archive.c"
#include <ftw.h>
#include <ctype.h>
#define A(P, c, m) do { if (VF_P == (P)) VF_ASSERT(c, m); } while (0)
static int rmf(const char *p, const struct stat *s, int t, struct FTW *f) { (void)s; (void)t; (void)f; return remove(p); }
static char *xs(const char *s) { char *r = malloc(strlen(s) + 1); strcpy(r, s); return r; } /* exact size: ASan sees every overrun */
static void rstr(char *s, size_t max, const char *alpha) { size_t n = vf_range(0, max), i, k = strlen(alpha); for (i = 0; i < n; i++) s[i] = alpha[vf_range(0, k - 1)]; s[n] = 0; }

static void strings(void) {
  char a[64], b[16], *p, *q, *r; long f; size_t i, k;
  rstr(a, 40, "aab:x "); rstr(b, 4, "aab:x "); p = xs(a); q = xs(b);
  f = coco_strfind(p, q); r = strstr(a, b);
  if (*b) A(15, f == (r ? r - a : -1), "coco_strfind: first occurrence or -1");
  r = coco_strconcat(p, q); A(15, !strncmp(r, a, strlen(a)) && !strcmp(r + strlen(a), b), "coco_strconcat"); coco_free_memory(r);
  r = coco_strdup(p); A(15, !strcmp(r, a), "coco_strdup"); coco_free_memory(r);
  r = coco_strdupf("%s|%d|%s", p, 17, q); { char e[120]; sprintf(e, "%s|17|%s", a, b); A(15, !strcmp(r, e), "coco_strdupf"); } coco_free_memory(r);
  { char **t = coco_string_split(p, ':'), c[64], *tok, *sv; strcpy(c, a); i = 0; for (tok = strtok_r(c, ":", &sv); tok; tok = strtok_r(NULL, ":", &sv)) { A(15, t[i] && !strcmp(t[i], tok), "coco_string_split: parts"); if (t[i]) i++; } A(15, t[i] == NULL, "coco_string_split: number of parts"); for (i = 0; t[i]; i++) coco_free_memory(t[i]); coco_free_memory(t); }
  rstr(a, 20, "ab  \t"); free(p); p = xs(a); r = coco_string_trim(p);
  for (i = 0; isspace((unsigned char)a[i]); i++) ; k = strlen(a); while (k > i && isspace((unsigned char)a[k - 1])) k--;
  A(15, r == p && strlen(r) == k - i && !strncmp(r, a + i, k - i), "coco_string_trim");
  free(p); free(q);
}
/* ranges against an independent parser */
static void ranges(void) {
  char s[2000] = "", *p = s; size_t k = vf_range(1, 12), i, j, exp_[600], ne = 0, min = vf_range(0, 2) ? 1 : vf_range(2, 5), max = vf_range(0, 2) ? vf_range(8, 60) : 0, cap = vf_range(0, 4) ? 500 : vf_range(1, 10), *r; int stop = 0; char *x;
  for (i = 0; i < k; i++) {
    size_t a = vf_range(1, 70), b = a + vf_range(0, 5), t = vf_range(0, 9), lo = a, hi = b;
    if (i) p += sprintf(p, ",");
    if (t == 0) { p += sprintf(p, "-%zu", a); lo = min; hi = a; }
    else if (t == 1) { p += sprintf(p, "%zu-", a); lo = a; hi = max; if (!max) { stop = 1; } }
    else if (t == 2 && vf_range(0, 3) == 0) { p += sprintf(p, "-"); lo = min; hi = max; if (!max) stop = 1; }
    else if (t == 3) { p += sprintf(p, "%zu-%zu", b, a); lo = b; hi = a; }
    else if (t < 7) { p += sprintf(p, "%zu", a); hi = a; }
    else p += sprintf(p, "%zu-%zu", a, b);
    if (stop) continue;
    if (lo < min) lo = min;
    if (max && hi > max) hi = max;
    if (lo > hi) { stop = 1; continue; }
    for (j = lo; j <= hi && ne < cap && ne < 599; j++) exp_[ne++] = j;
  }
  x = xs(s); r = coco_string_parse_ranges(x, min, max, "x", cap);
  if (ne == 0) A(15, r == NULL, "ranges: nothing valid");
  else { A(15, r != NULL, "ranges: something valid"); for (i = 0; i < ne; i++) A(15, r[i] == exp_[i], "ranges: numbers as listed, clipped to the boundaries"); A(15, r[ne] == 0, "ranges: terminated"); }
  if (r) coco_free_memory(r);
  free(x);
}
static const char *KEY[] = {"alpha", "beta_info", "gamma", "folder", "low_dim", "verbose", "zeta_x", "name"};
static void roundtrip(void) {
  char o[1200] = "", *p = o, val[8][64], *buf, *x; int present[8] = {0}, type[8], iv[8]; size_t k, i, ord[8]; double dv[8];
  for (i = 0; i < 8; i++) ord[i] = i;
  for (i = 8; i-- > 1;) { size_t j = vf_range(0, i), t = ord[i]; ord[i] = ord[j]; ord[j] = t; }
  k = vf_range(0, 8);
  for (i = 0; i < k; i++) {
    size_t q = ord[i]; present[q] = 1; type[q] = (int)vf_range(0, 3); iv[q] = (int)vf_range(0, 5000) - (type[q] == 0 ? 2500 : 0);
    if (type[q] == 0) sprintf(val[q], "%d", iv[q]);
    else if (type[q] == 1) { dv[q] = ((double)iv[q] - 2500) / 8; sprintf(val[q], "%.17g", dv[q]); }
    else if (type[q] == 2) rstr(val[q], 20, "pqrstuvw0123_-"), val[q][0] ? 0 : strcpy(val[q], "w");
    else { rstr(val[q] + 1, 20, "pqrs tu,.:v"); val[q][0] = '"'; if (!val[q][1]) strcpy(val[q] + 1, "w"); strcat(val[q], "\""); }
    { size_t n = vf_range(0, 2); while (n--) *p++ = ' '; if (i) *p++ = ' '; }
    p += sprintf(p, "%s%s:%*s%s", KEY[q], "", (int)vf_range(0, 3), "", val[q]);
  }
  x = xs(o); buf = malloc(strlen(o) + 1);
  for (i = 0; i < 8; i++) {
    int v = -77, r; double d = -77; size_t u = 77;
    strcpy(buf, "");
    if (!present[i]) {
      A(15, coco_options_read_int(x, KEY[i], &v) == 0 && v == -77 && coco_options_read_double(x, KEY[i], &d) == 0 && d == -77 && coco_options_read_size_t(x, KEY[i], &u) == 0 && u == 77 && coco_options_read_string(x, KEY[i], buf) == 0 && coco_options_read_values(x, KEY[i], buf) == 0, "an option that is not given is left alone");
      continue;
    }
    switch (type[i]) {
      case 0: r = coco_options_read_int(x, KEY[i], &v); A(15, r == 1 && v == iv[i], "integer option"); if (iv[i] >= 0) { r = coco_options_read_size_t(x, KEY[i], &u); A(15, r == 1 && u == (size_t)iv[i], "size option"); } break;
      case 1: r = coco_options_read_double(x, KEY[i], &d); A(15, r == 1 && d == dv[i], "real option"); break;
      case 2: r = coco_options_read_string(x, KEY[i], buf); A(15, r == 1 && !strcmp(buf, val[i]), "string option"); break;
      default: r = coco_options_read_string(x, KEY[i], buf); { char e[64]; strcpy(e, val[i] + 1); e[strlen(e) - 1] = 0; A(15, r == 1 && !strcmp(buf, e), "quoted string option"); }
    }
  }
  for (i = 0; i < 8; i++) if (!present[i]) { /* a key at the end of the string without its colon */
    int v = -77; char *y = malloc(strlen(o) + 80); sprintf(y, "%s %s%s", o, KEY[i], vf_range(0, 1) ? " " : ""); free(buf); buf = malloc(strlen(y) + 1);
    strcpy(buf, ""); A(15, coco_options_read_string(y, KEY[i], buf) == 0 && !buf[0] && coco_options_read_int(y, KEY[i], &v) == 0 && v == -77 && coco_options_read_values(y, KEY[i], buf) == 0, "key without colon: default"); free(y); }
  { coco_option_keys_t *g = coco_option_keys(x), *kn = coco_option_keys_allocate(4, KEY), *red; size_t c = 0, j;
    A(15, (g == NULL) == (k == 0), "keys given");
    if (g) { A(15, g->count == k, "number of keys"); for (i = 0; i < k; i++) A(15, !strcmp(g->keys[i], KEY[ord[i]]), "keys in the order given");
      red = coco_option_keys_get_redundant(kn, g); for (i = 0; i < k; i++) if (ord[i] >= 4) { A(15, red && c < red->count && !strcmp(red->keys[c], KEY[ord[i]]), "unknown keys"); c++; }
      A(15, c == 0 ? red == NULL : red->count == c, "only the unknown keys are reported"); coco_option_keys_add(&kn, g); A(15, kn->count == 4 + k, "union of keys"); for (j = 0; j < k; j++) A(15, !strcmp(kn->keys[4 + j], g->keys[j]), "union of keys"); coco_option_keys_free(red); coco_option_keys_free(g); }
    coco_option_keys_free(kn); }
  free(x); free(buf);
}
static void fuzz(void) {
  static const char *S[] = {"bbob", "bbob-biobj", "bbob-constrained", "toy", "bbob-mixint", "bbob-noisy", "bbob-boxed", "nosuch"}, *Oo[] = {"bbob", "bbob-biobj", "toy", "rw", "bbob-old", "bbob-constrained", "nosuch"};
  static const char *T[] = {"dimensions", "dimension_indices", "function_indices", "instance_indices", "instances", "year", ":", ": ", " ", "1-", "-5", "2,3", "1", "99999999999999999999", "2,3,5,10,20,40", "\"", "\"x\"", "1-3-5", ",", "-", "2009", "abc", "", "0", "7-2", "precision_x", "prefix", "algorithm_info", "number_target_triggers", "base_evaluation_triggers", "precision_f", "log_nondominated", "result_folder", "log_variables", "file_name", "%s%n", "1.5", "none"};
  char *o, *i2, *p; size_t k, i, len = 0, w = vf_range(0, 1); coco_suite_t *s; coco_observer_t *ob; 
  for (k = 0; k < 2; k++) {
    size_t n = vf_range(0, 12), big = vf_range(0, 11) == 0 ? vf_range(1, 40) : 0; len = 300 * 40 + 12000 * 6; o = malloc(len); p = o; *p = 0;
    if (w == 0 && vf_range(0, 2)) p += sprintf(p, "%s", k ? "function_indices: 1 " : "instances: ");
    for (i = 0; i < n; i++) p += sprintf(p, "%s", T[vf_range(0, sizeof T / sizeof *T - 1)]);
    if (big) { p += sprintf(p, " %s: ", vf_range(0, 2) ? (w ? "algorithm_info" : k ? "function_indices" : "instances") : (w ? "prefix" : "dimensions")); for (i = 0; i < big * 40; i++) p += sprintf(p, "%lu,", (unsigned long)(i + 1)); p[-1] = 0; }
    if (k == 0) i2 = xs(o); else { char *t = xs(o); free(o); o = t; break; }
    free(o);
  }
  if (w == 0) {
    s = coco_suite(S[vf_range(0, 7)], i2, o);
    if (s) { coco_problem_t *q = coco_suite_get_next_problem(s, NULL); (void)q; coco_suite_free(s); }
  } else {
    char *t = malloc(strlen(o) + 40); sprintf(t, "outer_folder: vfexd %s", o);
    ob = coco_observer(Oo[vf_range(0, 6)], t);
    if (ob) {
      A(15, ob->precision_x >= 1 && ob->precision_x <= 32 && ob->precision_f >= 1 && ob->precision_f <= 32 && ob->precision_g >= 1 && ob->precision_g <= 32 && ob->log_target_precision > 0 && ob->lin_target_precision > 0, "effective observer parameters are in their documented ranges");
      if (vf_range(0, 3) == 0) { coco_observer_evaluations_t *e = coco_observer_evaluations(ob->base_evaluation_triggers, 3); A(15, e && e->base_evaluations && e->base_count > 0, "base evaluations"); coco_observer_evaluations_free(e); }
      coco_observer_free(ob);
    }
    free(t);
    nftw("vfexd", rmf, 16, FTW_DEPTH | FTW_PHYS);
  }
  free(i2); free(o);
}
/* observer parameters: the value given if it is valid, the default otherwise */
static void params(void) {
  char o[600], *p = o; int g[6] = {0}, px = 8, pf = 15, pg = 3, di = 0, v; double lt = 1e-8, ll = 1e-5, d; size_t tt = 100, i, ord[6]; coco_observer_t *ob;
  for (i = 0; i < 6; i++) ord[i] = i;
  for (i = 6; i-- > 1;) { size_t j = vf_range(0, i), t = ord[i]; ord[i] = ord[j]; ord[j] = t; }
  p += sprintf(p, "outer_folder: vfexd ");
  for (i = 0; i < 6; i++) if (vf_range(0, 1)) switch (ord[i]) {
    case 0: v = (int)vf_range(0, 40) - 3; if (v >= 1 && v <= 32) px = v; p += sprintf(p, "precision_x: %d ", v); break;
    case 1: v = (int)vf_range(0, 40) - 3; if (v >= 1 && v <= 32) pf = v; p += sprintf(p, "precision_f: %d ", v); break;
    case 2: v = (int)vf_range(0, 40) - 3; if (v >= 1 && v <= 32) pg = v; p += sprintf(p, "precision_g: %d ", v); break;
    case 3: v = (int)vf_range(0, 4) - 1; if (v == 0 || v == 1) di = v; p += sprintf(p, "log_discrete_as_int: %d ", v); break;
    case 4:
      d = ((double)vf_range(0, 20) - 4) / 64; if (vf_range(0, 2) == 0) d = ldexp(d, -(int)vf_range(1, 200)); if (d > 0) lt = d; p += sprintf(p, "log_target_precision: %.17g ", d);
      d = ((double)vf_range(0, 20) - 4) / 64; if (vf_range(0, 2) == 0) d = ldexp(d, -(int)vf_range(1, 200)); if (d > 0) ll = d; p += sprintf(p, "lin_target_precision: %.17g ", d); break;
    default: tt = vf_range(0, 500); p += sprintf(p, "number_target_triggers: %lu ", (unsigned long)tt);
  }
  (void)g; p = xs(o);
  ob = coco_observer(vf_range(0, 1) ? "bbob" : "bbob-biobj", p);
  A(15, ob && ob->precision_x == px && ob->precision_f == pf && ob->precision_g == pg && ob->log_discrete_as_int == di, "observer precisions: as given if valid, default otherwise");
  A(15, ob && ob->log_target_precision == lt && ob->lin_target_precision == ll && ob->number_target_triggers == tt, "observer targets: as given if valid, default otherwise");
  A(15, ob && !strncmp(coco_observer_get_result_folder(ob), "vfexd/default", 13), "result folder below the outer folder");
  coco_observer_free(ob); free(p);
  nftw("vfexd", rmf, 16, FTW_DEPTH | FTW_PHYS);
}
void harness(void) { size_t m = vf_range(0, 7); vfg_error_allowed = (m == 0); switch (m) { case 0: fuzz(); break; case 1: params(); break; case 2: case 3: roundtrip(); break; case 4: case 5: ranges(); break; default: strings(); } }
