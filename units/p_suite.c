/* Contracts on suite iteration, indexing and filtering (coco_suite.c) */
#include "vf.h"
#include "ghost.h"
static size_t vfg_K1, vfg_K2, vfg_K3, vfg_oldK, vfg_w, vfg_cnt;
/* item K is kept iff its (one-based) index / its value is listed in front of the terminating zero; otherwise it is zero */
#define LISTED_KEEP(it, ind) ((it) == vfg_oldK && vfg_w < COCO_MAX_INSTANCES && VF_IMP(vfg_J <= vfg_w, (ind)[vfg_J] != 0) && (ind)[vfg_w] == vfg_K + 1)
#define LISTED_DROP(it, ind) ((it) == 0 && vfg_cnt < COCO_MAX_INSTANCES && (ind)[vfg_cnt] == 0 && VF_IMP(vfg_J < vfg_cnt, (ind)[vfg_J] != vfg_K + 1))
#define DIM_KEEP(s, num) ((s)->dimensions[vfg_K] == vfg_oldK && vfg_w < COCO_MAX_INSTANCES && VF_IMP(vfg_J <= vfg_w, (num)[vfg_J] != 0) && (num)[vfg_w] == vfg_oldK)
#define DIM_DROP(s, num) ((s)->dimensions[vfg_K] == 0 && vfg_cnt < COCO_MAX_INSTANCES && (num)[vfg_cnt] == 0 && VF_IMP(vfg_J < vfg_cnt, (num)[vfg_J] != vfg_oldK))
#include "coco_suite.c"

#ifndef VF_P
#define VF_P 4
#endif
/* ghost record of the (single) problem construction request */
static size_t vfg_pcalls, vfg_pf, vfg_pd, vfg_pi;
static coco_problem_t *vfg_prob;
static size_t vfg_frees; static coco_problem_t *vfg_freed;
static size_t vfg_obs; static coco_problem_t *vfg_obsprob, *vfg_obsin; static coco_observer_t *vfg_obsobs;

#define NEXT_AFTER(...) NEXT_AFTER_(__VA_ARGS__)
#define NEXT_AFTER_(items, n, from, cur) /* cur is the first active position after from */ \
  ((from) < (cur) && (cur) < (long)(n) && (items)[cur] != 0 && VF_IMP((from) < (long)vfg_K && (long)vfg_K < (cur), (items)[vfg_K] == 0))
#define NONE_AFTER(...) NONE_AFTER_(__VA_ARGS__)
#define NONE_AFTER_(items, n, from) VF_IMP((from) < (long)vfg_K && vfg_K < (n), (items)[vfg_K] == 0)
#define FIRST(...) FIRST_(__VA_ARGS__)
#define FIRST_(items, n, cur) NEXT_AFTER(items, n, -1L, cur)

int ct_next_item(const size_t *items, const size_t number_of_items, long *current_item_id)
__CPROVER_requires(number_of_items > 0 && number_of_items <= VF_NMAX && *current_item_id >= -1 && *current_item_id < (long)number_of_items)
__CPROVER_requires(vfg_K < VF_NMAX)
__CPROVER_assigns(*current_item_id, vfg_from)
__CPROVER_ensures(VF_RET == 0 || VF_RET == 1)
__CPROVER_ensures(VF_RET == 1 ==> NEXT_AFTER(items, number_of_items, VF_OLD(*current_item_id), *current_item_id))
__CPROVER_ensures(VF_RET == 0 ==> (NONE_AFTER(items, number_of_items, VF_OLD(*current_item_id)) && FIRST(items, number_of_items, *current_item_id)))
;

void h_next_item(void) {
  size_t n = nd_size(); size_t *items; long *cur = VF_OBJ(long); int r;
  VF_ASSUME(n > 0 && n <= VF_NMAX);
  items = VF_ARR(size_t, n);
  VF_ASSUME(*cur >= -1 && *cur < (long)n);
  vfg_K = nd_size(); VF_ASSUME(vfg_K < VF_NMAX);
  vfg_error_allowed = 1; /* "no valid items": reported, never silently continued */
  r = coco_suite_is_next_item_found(items, n, cur);
  if (r) VF_REACH("found"); else VF_REACH("wrap");
}

/* the three suite-level steps */
#define STEP_REQ \
__CPROVER_requires(suite != NULL && vfg_K < VF_NMAX) \
__CPROVER_requires(suite->number_of_dimensions > 0 && suite->number_of_dimensions <= VF_NMAX && suite->current_dimension_idx >= -1 && suite->current_dimension_idx < (long)suite->number_of_dimensions) \
__CPROVER_requires(suite->number_of_functions > 0 && suite->number_of_functions <= VF_NMAX && suite->current_function_idx >= -1 && suite->current_function_idx < (long)suite->number_of_functions) \
__CPROVER_requires(suite->number_of_instances > 0 && suite->number_of_instances <= VF_NMAX && suite->current_instance_idx >= -1 && suite->current_instance_idx < (long)suite->number_of_instances) \
__CPROVER_ensures(VF_RET == 0 || VF_RET == 1)
#define STEP(A, N, C) \
__CPROVER_ensures(VF_RET == 1 ==> NEXT_AFTER(A, N, VF_OLD(C), C)) \
__CPROVER_ensures(VF_RET == 0 ==> (NONE_AFTER(A, N, VF_OLD(C)) && FIRST(A, N, C)))
int ct_next_instance(coco_suite_t *suite)
STEP_REQ
__CPROVER_assigns(suite->current_instance_idx, vfg_from)
STEP(suite->instances, suite->number_of_instances, suite->current_instance_idx)
;
int ct_next_function(coco_suite_t *suite)
STEP_REQ
__CPROVER_assigns(suite->current_function_idx, suite->current_instance_idx, vfg_from)
STEP(suite->functions, suite->number_of_functions, suite->current_function_idx)
__CPROVER_ensures(VF_RET == 1 ==> suite->current_instance_idx == VF_OLD(suite->current_instance_idx))
__CPROVER_ensures(VF_RET == 0 ==> FIRST(suite->instances, suite->number_of_instances, suite->current_instance_idx))
;
int ct_next_dimension(coco_suite_t *suite)
STEP_REQ
__CPROVER_assigns(suite->current_dimension_idx, vfg_from)
STEP(suite->dimensions, suite->number_of_dimensions, suite->current_dimension_idx)
;
static coco_suite_t *mk_suite(void);
void h_step(void) {
  coco_suite_t *s = mk_suite(); int r;
  VF_ASSUME(s->current_dimension_idx >= -1 && s->current_dimension_idx < (long)s->number_of_dimensions);
  VF_ASSUME(s->current_function_idx >= -1 && s->current_function_idx < (long)s->number_of_functions);
  VF_ASSUME(s->current_instance_idx >= -1 && s->current_instance_idx < (long)s->number_of_instances);
#if defined(F_INST)
  r = coco_suite_is_next_instance_found(s);
#elif defined(F_FUN)
  r = coco_suite_is_next_function_found(s);
#else
  r = coco_suite_is_next_dimension_found(s);
#endif
  if (r) VF_REACH("found"); else VF_REACH("wrap");
}

/* callee contracts used for coco_suite_get_next_problem */
coco_problem_t *ct_from_indices(coco_suite_t *suite, const size_t function_idx, const size_t dimension_idx, const size_t instance_idx)
__CPROVER_requires(function_idx < suite->number_of_functions && dimension_idx < suite->number_of_dimensions && instance_idx < suite->number_of_instances)
__CPROVER_assigns(vfg_pcalls, vfg_pf, vfg_pd, vfg_pi)
__CPROVER_ensures(vfg_pcalls == VF_OLD(vfg_pcalls) + 1 && vfg_pf == function_idx && vfg_pd == dimension_idx && vfg_pi == instance_idx)
__CPROVER_ensures(VF_RET == ((suite->functions[function_idx] == 0 || suite->dimensions[dimension_idx] == 0 || suite->instances[instance_idx] == 0) ? NULL : vfg_prob))
;
void ct_problem_free(coco_problem_t *problem)
__CPROVER_assigns(vfg_frees, vfg_freed)
__CPROVER_ensures(vfg_frees == VF_OLD(vfg_frees) + 1 && vfg_freed == problem)
;
coco_problem_t *ct_add_observer(coco_problem_t *problem, coco_observer_t *observer)
__CPROVER_assigns(vfg_obs, vfg_obsin, vfg_obsobs)
__CPROVER_ensures(vfg_obs == VF_OLD(vfg_obs) + 1 && vfg_obsin == problem && vfg_obsobs == observer && VF_RET == vfg_obsprob)
;
char *ct_time_string(void)
__CPROVER_assigns()
__CPROVER_ensures(VF_RET == NULL)
;
int ct_noop_int(void);

#define D0 VF_OLD(suite->current_dimension_idx)
#define F0 VF_OLD(suite->current_function_idx)
#define I0 VF_OLD(suite->current_instance_idx)
#define DD suite->dimensions, suite->number_of_dimensions
#define FF suite->functions, suite->number_of_functions
#define II suite->instances, suite->number_of_instances
#define d_ suite->current_dimension_idx
#define f_ suite->current_function_idx
#define i_ suite->current_instance_idx
coco_problem_t *ct_next_problem(coco_suite_t *suite, coco_observer_t *observer)
__CPROVER_requires(suite != NULL && vfg_pcalls == 0 && vfg_frees == 0 && vfg_obs == 0 && vfg_K < VF_NMAX && vfg_prob != NULL && vfg_obsprob != NULL)
__CPROVER_requires(suite->number_of_dimensions > 0 && suite->number_of_dimensions <= VF_NMAX && d_ >= 0 && d_ < (long)suite->number_of_dimensions && suite->dimensions[d_] != 0)
__CPROVER_requires(suite->number_of_functions > 0 && suite->number_of_functions <= VF_NMAX && f_ >= 0 && f_ < (long)suite->number_of_functions && suite->functions[f_] != 0)
__CPROVER_requires(suite->number_of_instances > 0 && suite->number_of_instances <= VF_NMAX && i_ >= -1 && i_ < (long)suite->number_of_instances)
__CPROVER_assigns(suite->current_dimension_idx, suite->current_function_idx, suite->current_instance_idx, suite->current_problem)
__CPROVER_assigns(vfg_pcalls, vfg_pf, vfg_pd, vfg_pi, vfg_frees, vfg_freed, vfg_obs, vfg_obsin, vfg_obsobs, vfg_from)
/* end of the suite: nothing active lies behind the current position, in any of the three orders */
__CPROVER_ensures(VF_RET == NULL ==> (vfg_pcalls == 0 && NONE_AFTER(II, I0) && NONE_AFTER(FF, F0) && NONE_AFTER(DD, D0)))
/* otherwise exactly one problem is constructed, from the current indices, all of them active */
__CPROVER_ensures(VF_RET != NULL ==> (vfg_pcalls == 1 && (long)vfg_pd == d_ && (long)vfg_pf == f_ && (long)vfg_pi == i_
  && suite->dimensions[d_] != 0 && suite->functions[f_] != 0 && suite->instances[i_] != 0
  && suite->current_problem == VF_RET && VF_RET == (observer != NULL ? vfg_obsprob : vfg_prob)
  && VF_IMP(observer != NULL, vfg_obs == 1 && vfg_obsin == vfg_prob && vfg_obsobs == observer) && VF_IMP(observer == NULL, vfg_obs == 0)))
/* it is the lexicographic successor (dimension, function, instance) */
__CPROVER_ensures(VF_RET != NULL ==> (
     (d_ == D0 && f_ == F0 && NEXT_AFTER(II, I0, i_))
  || (d_ == D0 && NEXT_AFTER(FF, F0, f_) && NONE_AFTER(II, I0) && FIRST(II, i_))
  || (NEXT_AFTER(DD, D0, d_) && NONE_AFTER(FF, F0) && FIRST(FF, f_) && NONE_AFTER(II, I0) && FIRST(II, i_))))
/* the previous problem is released exactly once, and only when a new one is handed out */
__CPROVER_ensures(vfg_frees == ((VF_RET != NULL && VF_OLD(suite->current_problem) != NULL) ? 1 : 0))
__CPROVER_ensures(vfg_frees == 1 ==> vfg_freed == VF_OLD(suite->current_problem))
;
#undef d_
#undef f_
#undef i_
static coco_suite_t *mk_suite(void) {
  coco_suite_t *s = VF_OBJ(coco_suite_t);
  s->number_of_dimensions = nd_size(); s->number_of_functions = nd_size(); s->number_of_instances = nd_size();
  VF_ASSUME(s->number_of_dimensions > 0 && s->number_of_dimensions <= VF_NMAX);
  VF_ASSUME(s->number_of_functions > 0 && s->number_of_functions <= VF_NMAX);
  VF_ASSUME(s->number_of_instances > 0 && s->number_of_instances <= VF_NMAX);
  s->dimensions = VF_ARR(size_t, s->number_of_dimensions);
  s->functions = VF_ARR(size_t, s->number_of_functions);
  s->instances = VF_ARR(size_t, s->number_of_instances);
  vfg_K = nd_size(); VF_ASSUME(vfg_K < VF_NMAX);
  vfg_error_allowed = 1;
  return s;
}
void h_next_problem(void) {
  coco_suite_t *s = mk_suite(); coco_problem_t *r; coco_observer_t *o = NULL;
  long f0 = s->current_function_idx, d0 = s->current_dimension_idx;
#ifdef OBS
  o = VF_OBJ(coco_observer_t); s->current_problem = VF_OBJ(coco_problem_t); coco_log_level = COCO_WARNING;
#else
  s->current_problem = NULL; coco_log_level = COCO_INFO;
#endif
  VF_ASSUME(s->current_dimension_idx >= 0 && s->current_dimension_idx < (long)s->number_of_dimensions && s->dimensions[s->current_dimension_idx] != 0);
  VF_ASSUME(s->current_function_idx >= 0 && s->current_function_idx < (long)s->number_of_functions && s->functions[s->current_function_idx] != 0);
  vfg_pcalls = vfg_frees = vfg_obs = 0; vfg_prob = VF_OBJ(coco_problem_t); vfg_obsprob = VF_OBJ(coco_problem_t);
  r = coco_suite_get_next_problem(s, o);
  if (!r) VF_REACH("end");
  else if (s->current_dimension_idx != d0) VF_REACH("new dimension");
  else if (s->current_function_idx != f0) VF_REACH("new function");
  else VF_REACH("new instance");
}

/* ------------------------------------------------------------------ P05: indices */
#define TOTAL(s) ((s)->number_of_instances * (s)->number_of_functions * (s)->number_of_dimensions)
void ct_decode(const coco_suite_t *suite, const size_t problem_index, size_t *function_idx, size_t *dimension_idx, size_t *instance_idx)
__CPROVER_requires(suite != NULL && suite->number_of_instances > 0 && suite->number_of_functions > 0 && suite->number_of_dimensions > 0)
__CPROVER_requires(suite->number_of_instances * suite->number_of_functions > 0)
__CPROVER_assigns(*function_idx, *dimension_idx, *instance_idx)
__CPROVER_ensures(problem_index > TOTAL(suite) - 1 ==> (*function_idx == 0 && *dimension_idx == 0 && *instance_idx == 0))
__CPROVER_ensures(!(problem_index > TOTAL(suite) - 1) ==> (
     *instance_idx == problem_index % suite->number_of_instances
  && *function_idx == (problem_index / suite->number_of_instances) % suite->number_of_functions
  && *dimension_idx == problem_index / (suite->number_of_instances * suite->number_of_functions)))
;
size_t ct_encode(const coco_suite_t *suite, const size_t function_idx, const size_t dimension_idx, const size_t instance_idx)
__CPROVER_requires(suite != NULL)
__CPROVER_assigns()
__CPROVER_ensures(VF_RET == instance_idx + (function_idx * suite->number_of_instances) + (dimension_idx * suite->number_of_instances * suite->number_of_functions))
;
size_t ct_number_of_problems(const coco_suite_t *suite)
__CPROVER_requires(suite != NULL)
__CPROVER_assigns()
__CPROVER_ensures(VF_RET == TOTAL(suite))
;
void h_codec(void) {
  coco_suite_t *s = VF_OBJ(coco_suite_t); size_t *f = VF_OBJ(size_t), *d = VF_OBJ(size_t), *i = VF_OBJ(size_t), p = nd_size(), a = nd_size(), b = nd_size(), c = nd_size();
  VF_ASSUME(s->number_of_instances > 0 && s->number_of_functions > 0 && s->number_of_dimensions > 0 && s->number_of_instances * s->number_of_functions > 0);
#ifdef F_DEC
  coco_suite_decode_problem_index(s, p, f, d, i);
#elif defined(F_ENC)
  coco_suite_encode_problem_index(s, a, b, c);
#else
  coco_suite_get_number_of_problems(s);
#endif
  VF_REACH("end");
}

size_t ct_fun_at(const coco_suite_t *suite, const size_t function_idx)
__CPROVER_requires(suite != NULL && function_idx < suite->number_of_functions)
__CPROVER_assigns()
__CPROVER_ensures(VF_RET == suite->functions[function_idx])
;
size_t ct_dim_at(const coco_suite_t *suite, const size_t dimension_idx)
__CPROVER_requires(suite != NULL && dimension_idx < suite->number_of_dimensions)
__CPROVER_assigns()
__CPROVER_ensures(VF_RET == suite->dimensions[dimension_idx])
;
size_t ct_inst_at(const coco_suite_t *suite, const size_t instance_idx)
__CPROVER_requires(suite != NULL && instance_idx < suite->number_of_instances)
__CPROVER_assigns()
__CPROVER_ensures(VF_RET == suite->instances[instance_idx])
;
void h_at(void) {
  coco_suite_t *s = mk_suite(); size_t k = nd_size();
  vfg_error_allowed = 0;
#ifdef F_FUN
  VF_ASSUME(k < s->number_of_functions); coco_suite_get_function_from_function_index(s, k);
#elif defined(F_DIM)
  VF_ASSUME(k < s->number_of_dimensions); coco_suite_get_dimension_from_dimension_index(s, k);
#else
  VF_ASSUME(k < s->number_of_instances); coco_suite_get_instance_from_instance_index(s, k);
#endif
  VF_REACH("end");
}

/* coco_suite_get_problem: constructed from exactly the decoded indices */
coco_problem_t *ct_get_problem(coco_suite_t *suite, const size_t problem_index)
__CPROVER_requires(suite != NULL && suite->number_of_instances > 0 && suite->number_of_functions > 0 && suite->number_of_dimensions > 0)
__CPROVER_requires(suite->number_of_instances * suite->number_of_functions > 0 && vfg_pcalls == 0)
__CPROVER_requires(problem_index <= TOTAL(suite) - 1)
__CPROVER_assigns(vfg_pcalls, vfg_pf, vfg_pd, vfg_pi)
__CPROVER_ensures(vfg_pcalls == 1 && vfg_pi == problem_index % suite->number_of_instances
  && vfg_pf == (problem_index / suite->number_of_instances) % suite->number_of_functions
  && vfg_pd == problem_index / (suite->number_of_instances * suite->number_of_functions))
__CPROVER_ensures(VF_RET == vfg_prob || VF_RET == NULL)
;
coco_problem_t *ct_from_indices_rec(coco_suite_t *suite, const size_t function_idx, const size_t dimension_idx, const size_t instance_idx)
__CPROVER_assigns(vfg_pcalls, vfg_pf, vfg_pd, vfg_pi)
__CPROVER_ensures(vfg_pcalls == VF_OLD(vfg_pcalls) + 1 && vfg_pf == function_idx && vfg_pd == dimension_idx && vfg_pi == instance_idx)
__CPROVER_ensures(VF_RET == vfg_prob || VF_RET == NULL)
;
void h_get_problem(void) {
  coco_suite_t *s = VF_OBJ(coco_suite_t); size_t p = nd_size();
  VF_ASSUME(s->number_of_instances > 0 && s->number_of_functions > 0 && s->number_of_dimensions > 0 && s->number_of_instances * s->number_of_functions > 0);
  VF_ASSUME(p <= TOTAL(s) - 1);
  vfg_pcalls = 0; vfg_prob = VF_OBJ(coco_problem_t);
  coco_suite_get_problem(s, p);
  VF_REACH("end");
}

/* lookup by numbers: the first match in each list, NULL if one of them is missing */
coco_problem_t *ct_by_numbers(coco_suite_t *suite, const size_t function, const size_t dimension, const size_t instance)
__CPROVER_requires(suite != NULL && vfg_pcalls == 0 && vfg_prob != NULL)
__CPROVER_requires(suite->number_of_functions <= VF_NMAX && suite->number_of_dimensions <= VF_NMAX && suite->number_of_instances <= VF_NMAX)
__CPROVER_assigns(vfg_pcalls, vfg_pf, vfg_pd, vfg_pi)
__CPROVER_ensures(vfg_pcalls <= 1)
__CPROVER_ensures(vfg_pcalls == 0 ==> (VF_RET == NULL && (VF_IMP(vfg_K1 < suite->number_of_functions, suite->functions[vfg_K1] != function)
  || VF_IMP(vfg_K2 < suite->number_of_dimensions, suite->dimensions[vfg_K2] != dimension) || VF_IMP(vfg_K3 < suite->number_of_instances, suite->instances[vfg_K3] != instance))))
__CPROVER_ensures(vfg_pcalls == 1 ==> (vfg_pf < suite->number_of_functions && vfg_pd < suite->number_of_dimensions && vfg_pi < suite->number_of_instances
  && suite->functions[vfg_pf] == function && suite->dimensions[vfg_pd] == dimension && suite->instances[vfg_pi] == instance
  && VF_IMP(vfg_K1 < vfg_pf, suite->functions[vfg_K1] != function) && VF_IMP(vfg_K2 < vfg_pd, suite->dimensions[vfg_K2] != dimension)
  && VF_IMP(vfg_K3 < vfg_pi, suite->instances[vfg_K3] != instance)))
__CPROVER_ensures((vfg_pcalls == 1 && function != 0 && dimension != 0 && instance != 0) ==> VF_RET == vfg_prob)
;
void h_by_numbers(void) {
  coco_suite_t *s = mk_suite(); size_t f = nd_size(), d = nd_size(), i = nd_size();
  vfg_K1 = nd_size(); vfg_K2 = nd_size(); vfg_K3 = nd_size();
  VF_ASSUME(vfg_K1 < VF_NMAX && vfg_K2 < VF_NMAX && vfg_K3 < VF_NMAX);
  vfg_error_allowed = 0; vfg_pcalls = 0; vfg_prob = VF_OBJ(coco_problem_t);
  coco_suite_get_problem_by_function_dimension_instance(s, f, d, i);
  if (vfg_pcalls) VF_REACH("found"); else VF_REACH("not found");
}

/* ------------------------------------------------------------------ P06: filtering */
size_t ct_count_numbers(const size_t *numbers, const size_t max_count, const char *name)
__CPROVER_requires(max_count > 0 && max_count <= VF_NMAX)
__CPROVER_assigns()
__CPROVER_ensures(VF_RET < max_count && numbers[VF_RET] == 0 && VF_IMP(vfg_J < VF_RET, numbers[vfg_J] != 0))
;
void h_count(void) {
  size_t n = nd_size(); size_t *a; VF_ASSUME(n > 0 && n <= VF_NMAX); a = VF_ARR(size_t, n);
  vfg_J = nd_size(); VF_ASSUME(vfg_J < VF_NMAX);
  vfg_error_allowed = 1; /* more numbers than allowed: reported */
  coco_count_numbers(a, n, "x");
  VF_REACH("end");
}
void ct_filter_indices(size_t *items, const size_t number_of_items, const size_t *indices, const char *name)
__CPROVER_requires(number_of_items <= VF_NMAX && vfg_K < number_of_items && vfg_J < COCO_MAX_INSTANCES && items[vfg_K] == vfg_oldK)
__CPROVER_assigns(__CPROVER_object_whole(items), vfg_w, vfg_cnt)
__CPROVER_ensures(LISTED_KEEP(items[vfg_K], indices) || LISTED_DROP(items[vfg_K], indices))
;
static size_t *mk_list(void) { size_t m = nd_size(); VF_ASSUME(m == COCO_MAX_INSTANCES); return VF_ARR(size_t, m); }
void h_filter_indices(void) {
  size_t n = nd_size(); size_t *items, *ind = mk_list(); VF_ASSUME(n > 0 && n <= VF_NMAX); items = VF_ARR(size_t, n);
  vfg_K = nd_size(); vfg_J = nd_size(); VF_ASSUME(vfg_K < n && vfg_J < COCO_MAX_INSTANCES);
  vfg_oldK = items[vfg_K]; vfg_error_allowed = 1;
  coco_suite_filter_indices(items, n, ind, "x");
  if (items[vfg_K] != 0) VF_REACH("kept"); else VF_REACH("dropped");
}
void ct_filter_dimensions(coco_suite_t *suite, const size_t *dimension_numbers)
__CPROVER_requires(suite->number_of_dimensions <= VF_NMAX && vfg_K < suite->number_of_dimensions && vfg_J < COCO_MAX_INSTANCES && suite->dimensions[vfg_K] == vfg_oldK)
__CPROVER_assigns(__CPROVER_object_whole(suite->dimensions), vfg_w, vfg_cnt)
__CPROVER_ensures(DIM_KEEP(suite, dimension_numbers) || DIM_DROP(suite, dimension_numbers))
;
void h_filter_dimensions(void) {
  coco_suite_t *s = mk_suite(); size_t *num = mk_list();
  vfg_J = nd_size(); VF_ASSUME(vfg_K < s->number_of_dimensions && vfg_J < COCO_MAX_INSTANCES);
  vfg_oldK = s->dimensions[vfg_K];
  coco_suite_filter_dimensions(s, num);
  if (s->dimensions[vfg_K] != 0) VF_REACH("kept"); else VF_REACH("dropped");
}
/* the instance list becomes the suite's instance list */
void ct_set_instance(coco_suite_t *suite, const size_t *instance_numbers)
__CPROVER_requires(suite != NULL && instance_numbers != NULL)
__CPROVER_assigns(suite->number_of_instances, suite->instances)
__CPROVER_ensures(suite->number_of_instances < COCO_MAX_INSTANCES && instance_numbers[suite->number_of_instances] == 0)
__CPROVER_ensures(VF_IMP(vfg_J < suite->number_of_instances, instance_numbers[vfg_J] != 0 && suite->instances[vfg_J] == instance_numbers[vfg_J]))
;
size_t *ct_alloc_size_t(const size_t number_of_elements)
__CPROVER_requires(number_of_elements <= VF_NMAX)
__CPROVER_assigns()
__CPROVER_ensures(__CPROVER_is_fresh(VF_RET, sizeof(size_t) * number_of_elements))
;
void h_set_instance(void) {
  coco_suite_t *s = VF_OBJ(coco_suite_t); size_t *num = mk_list();
  vfg_J = nd_size(); VF_ASSUME(vfg_J < COCO_MAX_INSTANCES); vfg_error_allowed = 1;
  coco_suite_set_instance(s, num);
  if (s->number_of_instances > 2) VF_REACH("set");
}
