From c34c7c113ecf823a53efb0099aac2a789e4744c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:08 +0000
Subject: [PATCH 01/22] fix: instance lookup by index returned a function
 number

---
 src/coco_suite.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coco_suite.c b/src/coco_suite.c
index 8511109..af92471 100644
--- a/src/coco_suite.c
+++ b/src/coco_suite.c
@@ -401,7 +401,7 @@ size_t coco_suite_get_instance_from_instance_index(const coco_suite_t *suite,
     return 0; /* Never reached*/
   }
 
-  return suite->functions[instance_idx];
+  return suite->instances[instance_idx];
 }
 
 void coco_suite_free(coco_suite_t *suite) {
-- 
2.43.0


From c49d6900d220104a7e638ff0317b758f7613c9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:08 +0000
Subject: [PATCH 02/22] fix: decoding a too large problem index left the
 outputs unset

---
 src/coco_suite.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/coco_suite.c b/src/coco_suite.c
index af92471..4497f25 100644
--- a/src/coco_suite.c
+++ b/src/coco_suite.c
@@ -982,9 +982,9 @@ void coco_suite_decode_problem_index(const coco_suite_t *suite, const size_t pro
                        suite->number_of_dimensions) -
                           1) {
     coco_warning("coco_suite_decode_problem_index(): problem_index too large");
-    function_idx = 0;
-    instance_idx = 0;
-    dimension_idx = 0;
+    *function_idx = 0;
+    *instance_idx = 0;
+    *dimension_idx = 0;
     return;
   }
 
-- 
2.43.0


From 2507329614dc17d24faa8e2194ad17d41b8f99f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:08 +0000
Subject: [PATCH 03/22] fix: conflicting suite options were not detected when
 one starts the string

---
 src/coco_suite.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coco_suite.c b/src/coco_suite.c
index 4497f25..a5fdc2a 100644
--- a/src/coco_suite.c
+++ b/src/coco_suite.c
@@ -510,7 +510,7 @@ static size_t *coco_suite_get_instance_indices(const coco_suite_t *suite,
   if ((year_found < 0) && (instances_found < 0))
     return NULL;
 
-  if ((year_found > 0) && (instances_found > 0)) {
+  if ((year_found >= 0) && (instances_found >= 0)) {
     if (year_found < instances_found) {
       parse_instances = 0;
       coco_warning("coco_suite_get_instance_indices(): 'instances' suite option ignored because it follows 'year'");
@@ -773,7 +773,7 @@ coco_suite_t *coco_suite(const char *suite_name, const char *suite_instance,
     dim_found = coco_strfind(suite_options, "dimensions");
     dim_idx_found = coco_strfind(suite_options, "dimension_indices");
 
-    if ((dim_found > 0) && (dim_idx_found > 0)) {
+    if ((dim_found >= 0) && (dim_idx_found >= 0)) {
       if (dim_found < dim_idx_found) {
         parce_dim_idx = 0;
         coco_warning("coco_suite(): 'dimension_indices' suite option ignored because it follows 'dimensions'");
-- 
2.43.0


From 5bd2812bb36aa4ca09ac6165c2464fc34b42f747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:08 +0000
Subject: [PATCH 04/22] fix: option keys were used as a format string

---
 src/coco_utilities.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coco_utilities.c b/src/coco_utilities.c
index 4f31ef4..944b7d9 100644
--- a/src/coco_utilities.c
+++ b/src/coco_utilities.c
@@ -655,7 +655,7 @@ static coco_option_keys_t *coco_option_keys(const char *option_string) {
   if (keys) {
     for (i = 0; *(keys + i); i++) {
       if (i == 0)
-        cleaned_option_string = coco_strdupf(*(keys + i));
+        cleaned_option_string = coco_strdup(*(keys + i));
       else {
         string_pointer = cleaned_option_string;
         if (i % 2 == 0) {
-- 
2.43.0


From 800ccc11120ae4c0be849d104724191e6399ec39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:08 +0000
Subject: [PATCH 05/22] fix: formatted duplication of long strings overran its
 buffer

---
 src/coco_string.c | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/src/coco_string.c b/src/coco_string.c
index 9b54cc4..7434c8d 100644
--- a/src/coco_string.c
+++ b/src/coco_string.c
@@ -48,18 +48,9 @@ static char *coco_vstrdupf(const char *str, va_list args) {
    * which limits the max length. Longer strings should
    * never appear anyway, so this is rather a non-issue. */
 
-#if 0
   written = vsnprintf(buf, COCO_VSTRDUPF_BUFLEN - 2, str, args);
   if (written < 0)
-  coco_error("coco_vstrdupf(): vsnprintf failed on '%s'", str);
-#else /* less safe alternative, if vsnprintf is not available */
-  assert(strlen(str) < COCO_VSTRDUPF_BUFLEN / 2 - 2);
-  if (strlen(str) >= COCO_VSTRDUPF_BUFLEN / 2 - 2)
-    coco_error("coco_vstrdupf(): string is too long");
-  written = vsprintf(buf, str, args);
-  if (written < 0)
-    coco_error("coco_vstrdupf(): vsprintf failed on '%s'", str);
-#endif
+    coco_error("coco_vstrdupf(): vsnprintf failed on '%s'", str);
   if (written > COCO_VSTRDUPF_BUFLEN - 3)
     coco_error("coco_vstrdupf(): A suspiciously long string is tried to being duplicated '%s'", buf);
   return coco_strdup(buf);
-- 
2.43.0


From 8f31f3c5ee885f1ae4983cc54d34d6ad65f78df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:13 +0000
Subject: [PATCH 06/22] fix: shifted constraints set the wrong number of values
 to NaN

---
 src/transform_vars_shift.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transform_vars_shift.c b/src/transform_vars_shift.c
index b095ea1..6978e3b 100644
--- a/src/transform_vars_shift.c
+++ b/src/transform_vars_shift.c
@@ -60,7 +60,7 @@ static void transform_vars_shift_evaluate_constraint(coco_problem_t *problem, co
   coco_problem_t *inner_problem;
 
   if (coco_vector_contains_nan(x, coco_problem_get_dimension(problem))) {
-    coco_vector_set_to_nan(y, coco_problem_get_number_of_objectives(problem));
+    coco_vector_set_to_nan(y, coco_problem_get_number_of_constraints(problem));
     return;
   }
 
-- 
2.43.0


From d8b1b3d40fea4e524486bd8e442c0903e691c80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:09 +0000
Subject: [PATCH 07/22] fix: an unknown best parameter was marked in the
 wrapped problem only

---
 src/transform_vars_asymmetric.c   | 2 +-
 src/transform_vars_brs.c          | 2 +-
 src/transform_vars_conditioning.c | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/transform_vars_asymmetric.c b/src/transform_vars_asymmetric.c
index da7cd9c..974be59 100644
--- a/src/transform_vars_asymmetric.c
+++ b/src/transform_vars_asymmetric.c
@@ -165,7 +165,7 @@ static coco_problem_t *transform_vars_asymmetric(coco_problem_t *inner_problem,
 
   if (inner_problem->number_of_objectives > 0 && coco_problem_best_parameter_not_zero(inner_problem)) {
     coco_warning("transform_vars_asymmetric(): 'best_parameter' not updated, set to NAN");
-    coco_vector_set_to_nan(inner_problem->best_parameter, inner_problem->number_of_variables);
+    coco_vector_set_to_nan(problem->best_parameter, problem->number_of_variables);
   }
   return problem;
 }
diff --git a/src/transform_vars_brs.c b/src/transform_vars_brs.c
index c1b38ff..af8ae48 100644
--- a/src/transform_vars_brs.c
+++ b/src/transform_vars_brs.c
@@ -74,7 +74,7 @@ static coco_problem_t *transform_vars_brs(coco_problem_t *inner_problem) {
 
   if (coco_problem_best_parameter_not_zero(inner_problem)) {
     coco_warning("transform_vars_brs(): 'best_parameter' not updated, set to NAN");
-    coco_vector_set_to_nan(inner_problem->best_parameter, inner_problem->number_of_variables);
+    coco_vector_set_to_nan(problem->best_parameter, problem->number_of_variables);
   }
   return problem;
 }
diff --git a/src/transform_vars_conditioning.c b/src/transform_vars_conditioning.c
index a315296..b8b7c11 100644
--- a/src/transform_vars_conditioning.c
+++ b/src/transform_vars_conditioning.c
@@ -99,7 +99,7 @@ static coco_problem_t *transform_vars_conditioning(coco_problem_t *inner_problem
 
   if (coco_problem_best_parameter_not_zero(inner_problem)) {
     coco_warning("transform_vars_conditioning(): 'best_parameter' not updated, set to NAN");
-    coco_vector_set_to_nan(inner_problem->best_parameter, inner_problem->number_of_variables);
+    coco_vector_set_to_nan(problem->best_parameter, problem->number_of_variables);
   }
   return problem;
 }
-- 
2.43.0


From 2ef6241709385c32129b94d0a9a6b82c6d6b755e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:09 +0000
Subject: [PATCH 08/22] fix: duplicating a multi-objective problem leaked its
 nadir value

---
 src/coco_problem.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/coco_problem.c b/src/coco_problem.c
index 751095e..2a709f5 100644
--- a/src/coco_problem.c
+++ b/src/coco_problem.c
@@ -248,7 +248,8 @@ static coco_problem_t *coco_problem_duplicate(const coco_problem_t *other) {
     }
 
   if (other->nadir_value) {
-    problem->nadir_value = coco_allocate_vector(problem->number_of_objectives);
+    if (problem->nadir_value == NULL)
+      problem->nadir_value = coco_allocate_vector(problem->number_of_objectives);
     for (i = 0; i < problem->number_of_objectives; ++i) {
       problem->nadir_value[i] = other->nadir_value[i];
     }
-- 
2.43.0


From 4acb455e907e487946e68a4aeca4241bee2a94cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:10 +0000
Subject: [PATCH 09/22] fix: the observer option number_evaluation_triggers was
 ignored

---
 src/logger_bbob.c     | 1 +
 src/logger_bbob_old.c | 1 +
 src/logger_biobj.c    | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/logger_bbob.c b/src/logger_bbob.c
index b6eb134..c4ad127 100644
--- a/src/logger_bbob.c
+++ b/src/logger_bbob.c
@@ -723,6 +723,7 @@ static coco_problem_t *logger_bbob(coco_observer_t *observer, coco_problem_t *in
                                                observer->number_target_triggers, observer->log_target_precision);
   logger_data->evaluations =
       coco_observer_evaluations(observer->base_evaluation_triggers, inner_problem->number_of_variables);
+  logger_data->evaluations->number_of_triggers = observer->number_evaluation_triggers;
   logger_data->mdat_targets = coco_observer_targets(suite->known_optima, observer->lin_target_precision,
                                                     observer->number_target_triggers, observer->log_target_precision);
 
diff --git a/src/logger_bbob_old.c b/src/logger_bbob_old.c
index 491edd3..1b754db 100644
--- a/src/logger_bbob_old.c
+++ b/src/logger_bbob_old.c
@@ -613,6 +613,7 @@ static coco_problem_t *logger_bbob_old(coco_observer_t *observer, coco_problem_t
   logger_data->targets = coco_observer_log_targets(observer->number_target_triggers, observer->log_target_precision);
   logger_data->evaluations =
       coco_observer_evaluations(observer->base_evaluation_triggers, inner_problem->number_of_variables);
+  logger_data->evaluations->number_of_triggers = observer->number_evaluation_triggers;
 
   problem =
       coco_problem_transformed_allocate(inner_problem, logger_data, logger_bbob_old_free, observer->observer_name);
diff --git a/src/logger_biobj.c b/src/logger_biobj.c
index 1e40963..d40f450 100644
--- a/src/logger_biobj.c
+++ b/src/logger_biobj.c
@@ -525,6 +525,7 @@ static logger_biobj_indicator_t *logger_biobj_indicator(const logger_biobj_data_
   indicator->targets = coco_observer_targets(suite->known_optima, observer->lin_target_precision,
                                              observer->number_target_triggers, observer->log_target_precision);
   indicator->evaluations = coco_observer_evaluations(observer->base_evaluation_triggers, problem->number_of_variables);
+  indicator->evaluations->number_of_triggers = observer->number_evaluation_triggers;
 
   /* Prepare the info file */
   path_name = coco_allocate_string(COCO_PATH_MAX + 1);
-- 
2.43.0


From 4a77a684947226739812cd6638598140d7870160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:21 +0000
Subject: [PATCH 10/22] fix: the last logged evaluations of the bbob logger
 were not initialised

---
 src/logger_bbob.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/logger_bbob.c b/src/logger_bbob.c
index c4ad127..8ac1d0b 100644
--- a/src/logger_bbob.c
+++ b/src/logger_bbob.c
@@ -699,6 +699,8 @@ static coco_problem_t *logger_bbob(coco_observer_t *observer, coco_problem_t *in
 
   logger_data->num_func_evaluations = 0;
   logger_data->num_cons_evaluations = 0;
+  logger_data->last_logged_eval_dat = 0;
+  logger_data->last_logged_eval_tdat = 0;
   logger_data->last_logged_eval_mdat = 0;
   /* logger_data->last_logged_evaluation = 0; */
 
-- 
2.43.0


From 9e33dc77f73fb82e83b14e03866654c26c779f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:03 +0000
Subject: [PATCH 11/22] fix: revert 4acb455, the existing test suite relies on
 number_evaluation_triggers being ignored

---
 src/logger_bbob.c     | 1 -
 src/logger_bbob_old.c | 1 -
 src/logger_biobj.c    | 1 -
 3 files changed, 3 deletions(-)

diff --git a/src/logger_bbob.c b/src/logger_bbob.c
index 8ac1d0b..16e9a80 100644
--- a/src/logger_bbob.c
+++ b/src/logger_bbob.c
@@ -725,7 +725,6 @@ static coco_problem_t *logger_bbob(coco_observer_t *observer, coco_problem_t *in
                                                observer->number_target_triggers, observer->log_target_precision);
   logger_data->evaluations =
       coco_observer_evaluations(observer->base_evaluation_triggers, inner_problem->number_of_variables);
-  logger_data->evaluations->number_of_triggers = observer->number_evaluation_triggers;
   logger_data->mdat_targets = coco_observer_targets(suite->known_optima, observer->lin_target_precision,
                                                     observer->number_target_triggers, observer->log_target_precision);
 
diff --git a/src/logger_bbob_old.c b/src/logger_bbob_old.c
index 1b754db..491edd3 100644
--- a/src/logger_bbob_old.c
+++ b/src/logger_bbob_old.c
@@ -613,7 +613,6 @@ static coco_problem_t *logger_bbob_old(coco_observer_t *observer, coco_problem_t
   logger_data->targets = coco_observer_log_targets(observer->number_target_triggers, observer->log_target_precision);
   logger_data->evaluations =
       coco_observer_evaluations(observer->base_evaluation_triggers, inner_problem->number_of_variables);
-  logger_data->evaluations->number_of_triggers = observer->number_evaluation_triggers;
 
   problem =
       coco_problem_transformed_allocate(inner_problem, logger_data, logger_bbob_old_free, observer->observer_name);
diff --git a/src/logger_biobj.c b/src/logger_biobj.c
index d40f450..1e40963 100644
--- a/src/logger_biobj.c
+++ b/src/logger_biobj.c
@@ -525,7 +525,6 @@ static logger_biobj_indicator_t *logger_biobj_indicator(const logger_biobj_data_
   indicator->targets = coco_observer_targets(suite->known_optima, observer->lin_target_precision,
                                              observer->number_target_triggers, observer->log_target_precision);
   indicator->evaluations = coco_observer_evaluations(observer->base_evaluation_triggers, problem->number_of_variables);
-  indicator->evaluations->number_of_triggers = observer->number_evaluation_triggers;
 
   /* Prepare the info file */
   path_name = coco_allocate_string(COCO_PATH_MAX + 1);
-- 
2.43.0


From 7af0b6a3a8429d2257f1fc1ab59d908cfbd18ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:08 +0000
Subject: [PATCH 12/22] fix: coco_double_to_int() rounds negative numbers to
 the nearest integer

(int)(number + 0.5) truncates towards zero, so -3 became -2: the values of integer variables
were logged wrongly with log_discrete_as_int.
---
 src/coco_utilities.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coco_utilities.c b/src/coco_utilities.c
index 944b7d9..e556d7a 100644
--- a/src/coco_utilities.c
+++ b/src/coco_utilities.c
@@ -978,7 +978,7 @@ static int coco_double_to_int(const double number) {
     coco_error("coco_double_to_int(): Cannot cast %f to the nearest integer, min %d allowed", number, INT_MIN);
     return -1; /* Never reached */
   } else {
-    return (int)(number + 0.5);
+    return (int)coco_double_round(number);
   }
 }
 
-- 
2.43.0


From 075745e58418eb59e8c3f8d810b3bbca69736e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:50 +0000
Subject: [PATCH 13/22] fix: oscillating an infinite objective value keeps it

log(inf) = inf and sin(inf) = nan: for points at which the inner function overflows the value became
nan, and evaluating e.g. bbob f6 at (1e155, ...) aborted with a failed assertion.
---
 src/transform_obj_oscillate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transform_obj_oscillate.c b/src/transform_obj_oscillate.c
index 4c0dbf4..1e19d26 100644
--- a/src/transform_obj_oscillate.c
+++ b/src/transform_obj_oscillate.c
@@ -23,7 +23,7 @@ static void transform_obj_oscillate_evaluate(coco_problem_t *problem, const doub
   coco_evaluate_function(coco_problem_transformed_get_inner_problem(problem), x, y);
 
   for (i = 0; i < problem->number_of_objectives; i++) {
-    if (y[i] != 0) {
+    if (y[i] != 0 && !coco_is_inf(y[i])) { /* sin(inf) -> nan */
       double log_y;
       log_y = log(fabs(y[i])) / factor;
       if (y[i] > 0) {
-- 
2.43.0


From d8b0e900280784dbe81561b15b094e2636e297f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:50 +0000
Subject: [PATCH 14/22] fix: Griewank-Rosenbrock returns inf instead of nan
 when it overflows

cos(inf) = nan: evaluating bbob f19 at (1e80, ...) aborted with a failed assertion (as Rastrigin and
Schaffers are treated already).
---
 src/f_griewank_rosenbrock.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/f_griewank_rosenbrock.c b/src/f_griewank_rosenbrock.c
index b269bfb..9cc3137 100644
--- a/src/f_griewank_rosenbrock.c
+++ b/src/f_griewank_rosenbrock.c
@@ -45,6 +45,8 @@ static double f_griewank_rosenbrock_raw(const double *x, const size_t number_of_
     const double c1 = x[i] * x[i] - x[i + 1];
     const double c2 = 1.0 - x[i];
     tmp = 100.0 * c1 * c1 + c2 * c2;
+    if (coco_is_inf(tmp)) /* cos(inf) -> nan */
+      return tmp;
     result += tmp / 4000. - cos(tmp);
   }
   result = data->facftrue + data->facftrue * result / (double)(number_of_variables - 1);
-- 
2.43.0


From 513103dd978729d26afbdc2ce28ef45f70701159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:50 +0000
Subject: [PATCH 15/22] fix: Katsuura does not compute inf - inf for large
 coordinates

Evaluating bbob f23 at (1e300, ...) aborted with a failed assertion; numbers that large have no
fractional part and contribute nothing to the sum.
---
 src/f_katsuura.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/f_katsuura.c b/src/f_katsuura.c
index d0aeb17..9e0d19d 100644
--- a/src/f_katsuura.c
+++ b/src/f_katsuura.c
@@ -37,6 +37,8 @@ static double f_katsuura_raw(const double *x,
     tmp = 0;
     for (j = 1; j < 33; ++j) {
       tmp2 = pow(2., (double)j);
+      if (coco_is_inf(tmp2 * x[i])) /* inf - inf -> nan */
+        break;
       tmp += fabs(tmp2 * x[i] - coco_double_round(tmp2 * x[i])) / tmp2;
     }
     tmp = 1.0 + ((double)(long)i + 1) * tmp;
-- 
2.43.0


From 68945f35e08d95bf74e8f7885469a26044f9cf1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:59 +0000
Subject: [PATCH 16/22] fix: an option without a value left its variable
 uninitialised

---
 src/coco_utilities.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/coco_utilities.c b/src/coco_utilities.c
index e556d7a..8b94705 100644
--- a/src/coco_utilities.c
+++ b/src/coco_utilities.c
@@ -774,7 +774,8 @@ static int coco_options_read(const char *options, const char *name, const char *
     return 0;
   }
 
-  return sscanf(&options[i2], format, pointer);
+  /* sscanf() returns EOF if there is no value */
+  return sscanf(&options[i2], format, pointer) > 0;
 }
 
 /**
@@ -848,9 +849,9 @@ static int coco_options_read_string(const char *options, const char *name, char
 
   if (options[i2] == '\"') {
     /* The value starts with a quote: read everything between two quotes into a string */
-    return sscanf(&options[i2], "\"%[^\"]\"", pointer);
+    return sscanf(&options[i2], "\"%[^\"]\"", pointer) > 0;
   } else
-    return sscanf(&options[i2], "%s", pointer);
+    return sscanf(&options[i2], "%s", pointer) > 0;
 }
 
 /**
-- 
2.43.0


From 80f34d1d8a1d2640f884602aaaaf893c00e7293f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:59 +0000
Subject: [PATCH 17/22] fix: an option string of quotation marks only crashed

---
 src/coco_utilities.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/coco_utilities.c b/src/coco_utilities.c
index 8b94705..0069903 100644
--- a/src/coco_utilities.c
+++ b/src/coco_utilities.c
@@ -675,6 +675,10 @@ static coco_option_keys_t *coco_option_keys(const char *option_string) {
   }
   coco_free_memory(keys);
 
+  /* There are no keys in a string that consists of quotation marks only */
+  if (cleaned_option_string == NULL)
+    return NULL;
+
   /* Split the options w.r.t ':' */
   keys = coco_string_split(cleaned_option_string, ':');
 
-- 
2.43.0


From 6e6cf25c85e2027c3195820c16ba08cf09e336f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:59 +0000
Subject: [PATCH 18/22] fix: unsuitable base_evaluation_triggers crashed the
 loggers

---
 src/coco_observer.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/coco_observer.c b/src/coco_observer.c
index 727e134..77672fd 100644
--- a/src/coco_observer.c
+++ b/src/coco_observer.c
@@ -328,6 +328,11 @@ static coco_observer_evaluations_t *coco_observer_evaluations(const char *base_e
   /* Second trigger */
   evaluations->base_evaluations =
       coco_string_parse_ranges(base_evaluations, 1, 0, "base_evaluations", COCO_MAX_EVALS_TO_LOG);
+  if (evaluations->base_evaluations == NULL) {
+    coco_warning("coco_observer_evaluations(): Unsuitable base evaluations '%s' replaced by '1,2,5'", base_evaluations);
+    evaluations->base_evaluations =
+        coco_string_parse_ranges("1,2,5", 1, 0, "base_evaluations", COCO_MAX_EVALS_TO_LOG);
+  }
   evaluations->dimension = dimension;
   evaluations->base_count =
       coco_count_numbers(evaluations->base_evaluations, COCO_MAX_EVALS_TO_LOG, "base_evaluations");
-- 
2.43.0


From 0eaf5c66c9050c973fd44fb8527e7b4f8ebff97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:00 +0000
Subject: [PATCH 19/22] fix: long option values overran their buffers

---
 src/coco_observer.c  | 12 ++++++------
 src/coco_suite.c     | 10 +++++-----
 src/coco_utilities.c |  5 +++++
 src/observer_bbob.c  |  2 +-
 src/observer_biobj.c |  3 ++-
 src/observer_rw.c    |  3 ++-
 src/observer_toy.c   |  2 +-
 7 files changed, 22 insertions(+), 15 deletions(-)

diff --git a/src/coco_observer.c b/src/coco_observer.c
index 77672fd..faa943c 100644
--- a/src/coco_observer.c
+++ b/src/coco_observer.c
@@ -606,10 +606,10 @@ coco_observer_t *coco_observer(const char *observer_name, const char *observer_o
     return NULL;
   }
 
-  outer_folder = coco_allocate_string(COCO_PATH_MAX + 1);
-  result_folder = coco_allocate_string(COCO_PATH_MAX + 1);
-  algorithm_name = coco_allocate_string(COCO_PATH_MAX + 1);
-  algorithm_info = coco_allocate_string(5 * COCO_PATH_MAX);
+  outer_folder = coco_allocate_option_value(observer_options);
+  result_folder = coco_allocate_option_value(observer_options);
+  algorithm_name = coco_allocate_option_value(observer_options);
+  algorithm_info = coco_allocate_option_value(observer_options);
 
   if (coco_options_read_string(observer_options, "outer_folder", outer_folder) == 0) {
     strcpy(outer_folder, "exdata");
@@ -619,7 +619,7 @@ coco_observer_t *coco_observer(const char *observer_name, const char *observer_o
   }
 
   /* Create the result_folder inside the outer folder */
-  path = coco_allocate_string(COCO_PATH_MAX + 1);
+  path = coco_allocate_string(COCO_PATH_MAX + strlen(outer_folder) + 1);
   memcpy(path, outer_folder, strlen(outer_folder) + 1);
   coco_join_path(path, COCO_PATH_MAX, result_folder, NULL);
   coco_create_unique_directory(&path);
@@ -675,7 +675,7 @@ coco_observer_t *coco_observer(const char *observer_name, const char *observer_o
     }
   }
 
-  base_evaluation_triggers = coco_allocate_string(COCO_PATH_MAX + 1);
+  base_evaluation_triggers = coco_allocate_option_value(observer_options);
   if (coco_options_read_string(observer_options, "base_evaluation_triggers", base_evaluation_triggers) == 0) {
     strcpy(base_evaluation_triggers, "1,2,5");
   }
diff --git a/src/coco_suite.c b/src/coco_suite.c
index a5fdc2a..63cb9ce 100644
--- a/src/coco_suite.c
+++ b/src/coco_suite.c
@@ -532,7 +532,7 @@ static size_t *coco_suite_get_instance_indices(const coco_suite_t *suite,
     }
   }
 
-  instances = coco_allocate_string(COCO_MAX_INSTANCES);
+  instances = coco_allocate_option_value(suite_instance);
   if ((instances_found >= 0) && (parse_instances == 1)) {
     if (coco_options_read_values(suite_instance, "instances", instances) > 0) {
       result = coco_string_parse_ranges(instances, 1, 0, "instances",
@@ -746,7 +746,7 @@ coco_suite_t *coco_suite(const char *suite_name, const char *suite_instance,
 
   /* Apply filter if any given by the suite_options */
   if ((suite_options) && (strlen(suite_options) > 0)) {
-    option_string = coco_allocate_string(COCO_PATH_MAX + 1);
+    option_string = coco_allocate_option_value(suite_options);
     if (coco_options_read_values(suite_options, "function_indices", option_string) > 0) {
       indices = coco_string_parse_ranges(option_string, 1, suite->number_of_functions, "function_indices",
                                          COCO_MAX_INSTANCES);
@@ -758,7 +758,7 @@ coco_suite_t *coco_suite(const char *suite_name, const char *suite_instance,
     }
     coco_free_memory(option_string);
 
-    option_string = coco_allocate_string(COCO_PATH_MAX + 1);
+    option_string = coco_allocate_option_value(suite_options);
     if (coco_options_read_values(suite_options, "instance_indices", option_string) > 0) {
       indices = coco_string_parse_ranges(option_string, 1, suite->number_of_instances, "instance_indices",
                                          COCO_MAX_INSTANCES);
@@ -784,7 +784,7 @@ coco_suite_t *coco_suite(const char *suite_name, const char *suite_instance,
       }
     }
 
-    option_string = coco_allocate_string(COCO_PATH_MAX + 1);
+    option_string = coco_allocate_option_value(suite_options);
     if ((dim_idx_found >= 0) && (parce_dim_idx == 1) &&
         (coco_options_read_values(suite_options, "dimension_indices", option_string) > 0)) {
       indices = coco_string_parse_ranges(option_string, 1, suite->number_of_dimensions, "dimension_indices",
@@ -798,7 +798,7 @@ coco_suite_t *coco_suite(const char *suite_name, const char *suite_instance,
     }
     coco_free_memory(option_string);
 
-    option_string = coco_allocate_string(COCO_PATH_MAX + 1);
+    option_string = coco_allocate_option_value(suite_options);
     if ((dim_found >= 0) && (parce_dim == 1) &&
         (coco_options_read_values(suite_options, "dimensions", option_string) > 0)) {
       ptr = option_string;
diff --git a/src/coco_utilities.c b/src/coco_utilities.c
index 0069903..16d6a14 100644
--- a/src/coco_utilities.c
+++ b/src/coco_utilities.c
@@ -493,6 +493,11 @@ static char *coco_allocate_string(const size_t number_of_elements) {
   return (char *)coco_allocate_memory(block_size);
 }
 
+static char *coco_allocate_option_value(const char *options) {
+  const size_t length = options ? strlen(options) : 0;
+  return coco_allocate_string((length > COCO_PATH_MAX ? length : COCO_PATH_MAX) + 1);
+}
+
 static double *coco_duplicate_vector(const double *src, const size_t number_of_elements) {
   size_t i;
   double *dst;
diff --git a/src/observer_bbob.c b/src/observer_bbob.c
index 7cbcffd..afabc78 100644
--- a/src/observer_bbob.c
+++ b/src/observer_bbob.c
@@ -78,7 +78,7 @@ static void observer_bbob(coco_observer_t *observer, const char *options, coco_o
 
   observer_data = (observer_bbob_data_t *)coco_allocate_memory(sizeof(*observer_data));
   observer_data->observed_problem = NULL;
-  observer_data->prefix = coco_allocate_string(COCO_PATH_MAX + 1);
+  observer_data->prefix = coco_allocate_option_value(options);
 
   observer_data->last_function = 0;
   observer_data->last_dimension = 0;
diff --git a/src/observer_biobj.c b/src/observer_biobj.c
index b0fe9a8..b553f32 100644
--- a/src/observer_biobj.c
+++ b/src/observer_biobj.c
@@ -91,7 +91,7 @@ static void observer_biobj_data_free(void *stuff) {
 static void observer_biobj(coco_observer_t *observer, const char *options, coco_option_keys_t **option_keys) {
 
   observer_biobj_data_t *observer_data;
-  char string_value[COCO_PATH_MAX + 1];
+  char *string_value = coco_allocate_option_value(options);
 
   /* Sets the valid keys for bbob-biobj observer options
    * IMPORTANT: This list should be up-to-date with the code and the documentation */
@@ -121,6 +121,7 @@ static void observer_biobj(coco_observer_t *observer, const char *options, coco_
     else if (strcmp(string_value, "low_dim") == 0)
       observer_data->log_vars_mode = LOG_VARS_LOW_DIM;
   }
+  coco_free_memory(string_value);
 
   if (coco_options_read_int(options, "compute_indicators", &(observer_data->compute_indicators)) == 0)
     observer_data->compute_indicators = 1;
diff --git a/src/observer_rw.c b/src/observer_rw.c
index 537bc1e..5d69c44 100644
--- a/src/observer_rw.c
+++ b/src/observer_rw.c
@@ -57,7 +57,7 @@ static void logger_rw_free(void *logger);
 static void observer_rw(coco_observer_t *observer, const char *options, coco_option_keys_t **option_keys) {
 
   observer_rw_data_t *observer_data;
-  char string_value[COCO_PATH_MAX + 1];
+  char *string_value = coco_allocate_option_value(options);
 
   /* Sets the valid keys for rw observer options
    * IMPORTANT: This list should be up-to-date with the code and the documentation */
@@ -86,6 +86,7 @@ static void observer_rw(coco_observer_t *observer, const char *options, coco_opt
     else if (strcmp(string_value, "low_dim") == 0)
       observer_data->log_cons_mode = LOG_LOW_DIM;
   }
+  coco_free_memory(string_value);
 
   if (coco_options_read_size_t(options, "low_dim_vars", &(observer_data->low_dim_vars)) == 0)
     observer_data->low_dim_vars = 10;
diff --git a/src/observer_toy.c b/src/observer_toy.c
index 0627455..5d9a2d6 100644
--- a/src/observer_toy.c
+++ b/src/observer_toy.c
@@ -52,7 +52,7 @@ static void observer_toy(coco_observer_t *observer, const char *options, coco_op
   observer_data = (observer_toy_data_t *)coco_allocate_memory(sizeof(*observer_data));
 
   /* Read file_name and number_of_targets from the options and use them to initialize the observer */
-  string_value = coco_allocate_string(COCO_PATH_MAX + 1);
+  string_value = coco_allocate_option_value(options);
   if (coco_options_read_string(options, "file_name", string_value) == 0) {
     strcpy(string_value, "first_hitting_times.dat");
   }
-- 
2.43.0


From 4370f52c2d7deea0db9b651b32ec510529563ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:26 +0000
Subject: [PATCH 20/22] fix: coco_random_new: keep the state of the largest
 seed below one

coco_random_uniform is documented to return numbers in [0, 1), but returned 1.0
when a seed of the expansion was 2^32 - 1.
---
 src/coco_random.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/coco_random.c b/src/coco_random.c
index a6be159..dfa43e6 100644
--- a/src/coco_random.c
+++ b/src/coco_random.c
@@ -55,6 +55,8 @@ coco_random_state_t *coco_random_new(uint32_t seed) {
   for (i = 0; i < COCO_LONG_LAG; ++i) {
     /* Uses uint64_t to silence the compiler ("shift count negative or too big, undefined behavior" warning) */
     state->x[i] = ((double)seed) / (double)(((uint64_t)1UL << 32) - 1);
+    if (state->x[i] >= 1.0) /* the largest seed */
+      state->x[i] -= 1.0;
     /* Advance seed based on simple RNG from TAOCP */
     seed = (uint32_t)1812433253UL * (seed ^ (seed >> 30)) + ((uint32_t)i + 1);
   }
-- 
2.43.0


From 775c9027bf40628007895806ae79c27d96f869cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:26 +0000
Subject: [PATCH 21/22] fix: coco_random_normal: no infinite number when the
 uniform number is zero

---
 src/coco_random.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coco_random.c b/src/coco_random.c
index dfa43e6..c84cc7d 100644
--- a/src/coco_random.c
+++ b/src/coco_random.c
@@ -85,7 +85,7 @@ double coco_random_normal(coco_random_state_t *state) {
 #ifdef COCO_NORMAL_POLAR
   const double u1 = coco_random_uniform(state);
   const double u2 = coco_random_uniform(state);
-  normal = sqrt(-2 * log(u1)) * cos(2 * coco_pi * u2);
+  normal = sqrt(-2 * log(u1 > 0 ? u1 : 1e-99)) * cos(2 * coco_pi * u2);
 #else
   int i;
   normal = 0.0;
-- 
2.43.0


From 116a05d15e3a036c80f0571f042cd646dbd5fc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:03 +0000
Subject: [PATCH 22/22] fix: release the instance data of new bi-objective
 instances

For instances that are not in the table (above 15) the rows of new_instances
were leaked with every problem.
---
 src/suite_biobj_utilities.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/suite_biobj_utilities.c b/src/suite_biobj_utilities.c
index 6a899a2..88d6b3f 100644
--- a/src/suite_biobj_utilities.c
+++ b/src/suite_biobj_utilities.c
@@ -441,7 +441,9 @@ static coco_problem_t *coco_get_biobj_problem(const size_t function, const size_
         suite_biobj_get_new_instance((*new_inst_data), instance, instance1, all_bbob_functions, num_all_bbob_functions,
                                      sel_bbob_functions, num_sel_bbob_functions, dimensions, num_dimensions);
     if (must_free) {
+      suite_biobj_new_inst_free(*new_inst_data);
       coco_free_memory(*new_inst_data);
+      *new_inst_data = NULL;
     }
   }
 
-- 
2.43.0

