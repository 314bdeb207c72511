From ad7504d21a0c6face7c4d97e13b46f37ef931bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:25 +0000
Subject: [PATCH 01/57] fix: IEEE backend computed isunordered for every
 unordered predicate

FCMP_UEQ, UGT, UGE, ULT, ULE and UNE must hold when the operands are
unordered or the relation holds; with --inst-fcmp every != comparison
(FCMP_UNE) of ordered operands was false.
---
 src/backends/interflop-backend-ieee/interflop_ieee.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/backends/interflop-backend-ieee/interflop_ieee.c b/src/backends/interflop-backend-ieee/interflop_ieee.c
index 2a6b357..5a3cedd 100644
--- a/src/backends/interflop-backend-ieee/interflop_ieee.c
+++ b/src/backends/interflop-backend-ieee/interflop_ieee.c
@@ -246,27 +246,27 @@ static inline void debug_print_fma_double(void *context,
     (STR) = "FCMP_ORD";                                                        \
     break;                                                                     \
   case FCMP_UEQ:                                                               \
-    *(C) = isunordered(A, B);                                                  \
+    *(C) = !islessgreater(A, B);                                               \
     (STR) = "FCMP_UEQ";                                                        \
     break;                                                                     \
   case FCMP_UGT:                                                               \
-    *(C) = isunordered(A, B);                                                  \
+    *(C) = !islessequal(A, B);                                                 \
     (STR) = "FCMP_UGT";                                                        \
     break;                                                                     \
   case FCMP_UGE:                                                               \
-    *(C) = isunordered(A, B);                                                  \
+    *(C) = !isless(A, B);                                                      \
     (STR) = "FCMP_UGE";                                                        \
     break;                                                                     \
   case FCMP_ULT:                                                               \
-    *(C) = isunordered(A, B);                                                  \
+    *(C) = !isgreaterequal(A, B);                                              \
     (STR) = "FCMP_ULT";                                                        \
     break;                                                                     \
   case FCMP_ULE:                                                               \
-    *(C) = isunordered(A, B);                                                  \
+    *(C) = !isgreater(A, B);                                                   \
     (STR) = "FCMP_ULE";                                                        \
     break;                                                                     \
   case FCMP_UNE:                                                               \
-    *(C) = isunordered(A, B);                                                  \
+    *(C) = ((A) != (B));                                                       \
     (STR) = "FCMP_UNE";                                                        \
     break;                                                                     \
   case FCMP_UNO:                                                               \
-- 
2.43.0


From 56a4f529e1b24a070548c1593d3c9eed71b247ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:25 +0000
Subject: [PATCH 02/57] fix: finalize the backends once when several
 instrumented objects are loaded

The wrapper's destructor ran once per object, so backends were finalized
(and delta-debug maps freed) several times.
---
 src/vfcwrapper/main.c.in | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/vfcwrapper/main.c.in b/src/vfcwrapper/main.c.in
index e703f5d..0a56785 100644
--- a/src/vfcwrapper/main.c.in
+++ b/src/vfcwrapper/main.c.in
@@ -87,6 +87,8 @@ struct interflop_backend_interface_t backends[MAX_BACKENDS];
 void *contexts[MAX_BACKENDS] = {NULL};
 unsigned char loaded_backends = 0;
 unsigned char already_initialized = 0;
+/* number of loaded objects (executable, libraries) that share the backends */
+unsigned int loaded_wrappers = 0;
 
 /* Logger functions */
 
@@ -194,6 +196,12 @@ void ddebug_generate_inclusion(char *dd_generate_path, vfc_hashmap_t map) {
 
 __attribute__((destructor(0))) static void vfc_atexit(void) {
 
+  /* The destructor runs once per loaded object (see vfc_init), the shared
+   * backends are finalized with the last one */
+  if (loaded_wrappers > 0 && --loaded_wrappers > 0) {
+    return;
+  }
+
   /* Send finalize message to backends */
   for (int i = 0; i < loaded_backends; i++)
     if (backends[i].interflop_finalize)
@@ -395,6 +403,7 @@ __attribute__((constructor(0))) static void vfc_init(void) {
    * Is this code robust? dlopen is thread safe, so this should work.
    *
    */
+  loaded_wrappers++;
   if (already_initialized == 0) {
     already_initialized = 1;
   } else {
-- 
2.43.0


From ee5de2cbcb51563303f75034c488c10154862c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:25 +0000
Subject: [PATCH 03/57] fix: VPREC freed its token buffers once per loaded
 instance

Two VPREC backends in one chain aborted at exit with a double free.
---
 .../interflop_vprec_function_instrumentation.c              | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
index 769d41a..9fd2f4d 100644
--- a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
+++ b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
@@ -53,9 +53,11 @@ static const char key_log_file_str[] = "prec-log-file";
     (A)[i] = (char *)interflop_malloc(sizeof(char) * STRING_BUFF);
 
 #define FREE_STRING(A, N)                                                      \
-  for (int i = 0; i < N; i++)                                                  \
+  for (int i = 0; i < N; i++) {                                                \
     if ((A)[i])                                                                \
-      interflop_free((A)[i]);
+      interflop_free((A)[i]);                                                  \
+    (A)[i] = NULL;                                                             \
+  }
 
 const int elt_to_read_header = 12;
 const int elt_to_read_inputs = 7;
-- 
2.43.0


From af44615cf606244eb77a5e11acb1bdefcd00ecb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:25 +0000
Subject: [PATCH 04/57] fix: parse a copy of VFC_BACKENDS

strtok_r cut the variable in the environment itself, so child processes
inherited only the first backend without its options.
---
 src/vfcwrapper/main.c.in | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/vfcwrapper/main.c.in b/src/vfcwrapper/main.c.in
index 0a56785..4b26b40 100644
--- a/src/vfcwrapper/main.c.in
+++ b/src/vfcwrapper/main.c.in
@@ -276,7 +276,15 @@ void parse_vfc_backends_env(char **vfc_backends, char **vfc_backends_env) {
   *vfc_backends = (char *)malloc(sizeof(char) * 256);
 
   sprintf(*vfc_backends_env, "VFC_BACKENDS");
+  /* parse a copy: the environment is inherited by child processes */
   *vfc_backends = getenv(*vfc_backends_env);
+  if (*vfc_backends != NULL) {
+    *vfc_backends = strdup(*vfc_backends);
+    if (*vfc_backends == NULL) {
+      logger_error("Error while reading %s: %s", *vfc_backends_env,
+                   strerror(errno));
+    }
+  }
 
   /* Parse VFC_BACKENDS_FROM_FILE if VFC_BACKENDS is empty*/
   if (*vfc_backends == NULL) {
-- 
2.43.0


From 009e4de82f0e6bcbd6bf2596b92a545048cbe912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:25 +0000
Subject: [PATCH 05/57] fix: keep room for the terminating NULL of the backend
 arguments

With exactly MAX_ARGS arguments the NULL was written past the array.
---
 src/vfcwrapper/main.c.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfcwrapper/main.c.in b/src/vfcwrapper/main.c.in
index 4b26b40..c7f965c 100644
--- a/src/vfcwrapper/main.c.in
+++ b/src/vfcwrapper/main.c.in
@@ -480,7 +480,7 @@ __attribute__((constructor(0))) static void vfc_init(void) {
     char *spaceptr;
     char *arg = strtok_r(token, " ", &spaceptr);
     while (arg) {
-      if (backend_argc >= MAX_ARGS) {
+      if (backend_argc >= MAX_ARGS - 1) {
         logger_error("%s syntax error: too many arguments", vfc_backends_env);
       }
       backend_argv[backend_argc++] = arg;
-- 
2.43.0


From 9ee5c819586b5b7432c6927ed753060880442ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:25 +0000
Subject: [PATCH 06/57] fix: a read error in the middle of the configuration
 file is an error

getline returns the characters read so far, which were used as the
configuration.
---
 src/vfcwrapper/main.c.in | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vfcwrapper/main.c.in b/src/vfcwrapper/main.c.in
index c7f965c..1142fef 100644
--- a/src/vfcwrapper/main.c.in
+++ b/src/vfcwrapper/main.c.in
@@ -299,7 +299,7 @@ void parse_vfc_backends_env(char **vfc_backends, char **vfc_backends_env) {
         size_t len = 0;
         ssize_t nread;
         nread = getline(vfc_backends, &len, fi);
-        if (nread == -1) {
+        if (nread == -1 || ferror(fi)) {
           logger_error("Error while reading file pointed by %s: %s",
                        *vfc_backends_env, strerror(errno));
         } else {
@@ -307,6 +307,7 @@ void parse_vfc_backends_env(char **vfc_backends, char **vfc_backends_env) {
             (*vfc_backends)[nread - 1] = '\0';
           }
         }
+        fclose(fi);
       }
     }
   }
-- 
2.43.0


From 4216c3d55bceb9eeb106cc9195a4e01e8efbd588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:25 +0000
Subject: [PATCH 07/57] fix: reject option values that are not numbers

strtoll and strtod do not set errno for text without digits or with
trailing characters: --seed=abc meant seed 0, --precision-binary64=2O
meant 2.
---
 src/vfcwrapper/main.c.in | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/vfcwrapper/main.c.in b/src/vfcwrapper/main.c.in
index 1142fef..7565c02 100644
--- a/src/vfcwrapper/main.c.in
+++ b/src/vfcwrapper/main.c.in
@@ -313,11 +313,16 @@ void parse_vfc_backends_env(char **vfc_backends, char **vfc_backends_env) {
   }
 }
 
+/* A number was read and only white spaces follow */
+static bool _vfc_is_number_end(const char *nptr, const char *endptr) {
+  return endptr != nptr && endptr[strspn(endptr, " \t\r\n")] == '\0';
+}
+
 long _vfc_strtol(const char *nptr, char **endptr, int *error) {
   *error = 0;
   errno = 0;
   long val = strtoll(nptr, endptr, 10);
-  if (errno != 0) {
+  if (errno != 0 || !_vfc_is_number_end(nptr, *endptr)) {
     *error = 1;
   }
   return val;
@@ -327,7 +332,7 @@ double _vfc_strtod(const char *nptr, char **endptr, int *error) {
   *error = 0;
   errno = 0;
   double val = strtod(nptr, endptr);
-  if (errno != 0) {
+  if (errno != 0 || !_vfc_is_number_end(nptr, *endptr)) {
     *error = 1;
   }
   return val;
-- 
2.43.0


From 6984d03d9605b7ac93a3ed26b4e8a8b8a956285f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:41 +0000
Subject: [PATCH 08/57] fix: threads without a fixed seed could share one noise
 stream

The seed was tv_sec ^ tv_usec ^ tid: two threads with neighbouring
identifiers whose first draws are a few microseconds apart obtained equal
seeds. Mix the parts and add the thread's rank.
---
 src/interflop-stdlib/rng/vfc_rng.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/interflop-stdlib/rng/vfc_rng.c b/src/interflop-stdlib/rng/vfc_rng.c
index c414a45..158a240 100644
--- a/src/interflop-stdlib/rng/vfc_rng.c
+++ b/src/interflop-stdlib/rng/vfc_rng.c
@@ -27,7 +27,7 @@
         _set_seed(RANDOM_STATE, RANDOM_STATE->choose_seed,                     \
                   RANDOM_STATE->seed ^ _get_new_tid(GLOBAL_TID));              \
       } else {                                                                 \
-        _set_seed(RANDOM_STATE, false, 0);                                     \
+        _set_seed(RANDOM_STATE, false, _get_new_tid(GLOBAL_TID));              \
       }                                                                        \
       RANDOM_STATE->random_state_valid = true;                                 \
     }                                                                          \
@@ -36,7 +36,8 @@
 /* Generic set_seed function which is common for most of the backends */
 /* @param random state pointer to the internal state of the RNG */
 /* @param choose_seed whether to set the seed to a user-provided value */
-/* @param seed the user-provided seed for the RNG */
+/* @param seed the user-provided seed for the RNG, or an identifier unique to */
+/* the calling thread when the seed is not chosen by the user */
 static void _set_seed(rng_state_t *random_state, const bool choose_seed,
                       const uint64_t seed) {
   if (choose_seed) {
@@ -46,7 +47,11 @@ static void _set_seed(rng_state_t *random_state, const bool choose_seed,
     struct timeval t1;
     interflop_gettimeofday(&t1, NULL);
     /* Hopefully the following seed is good enough for Montercarlo */
-    random_state->seed = t1.tv_sec ^ t1.tv_usec ^ interflop_gettid();
+    /* Mix each part: xor-ing them gives equal seeds to threads with close */
+    /* identifiers that start within a few microseconds */
+    const uint64_t time = (uint64_t)t1.tv_sec * 1000000 + t1.tv_usec;
+    random_state->seed = next_seed(next_seed(time) + interflop_gettid());
+    random_state->seed = next_seed(random_state->seed) + seed;
   }
   random_state->random_state[0] = next_seed(random_state->seed);
   random_state->random_state[1] = next_seed(random_state->seed);
-- 
2.43.0


From a87ff9107eeb72e3ff12a1011d2375198de11d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:46 +0000
Subject: [PATCH 09/57] fix: function scopes: read the arguments again for each
 backend, tell colliding names apart

vfc_enter_function and vfc_exit_function passed one va_list to every
backend, so the second and later ones read past the arguments.  The
function table was keyed by the hash of the name alone, so two functions
whose names have the same hash (fAa, fBB) were taken for one.
---
 src/vfcwrapper/funcinstr.c | 40 +++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/src/vfcwrapper/funcinstr.c b/src/vfcwrapper/funcinstr.c
index 41bf805..42e1b69 100644
--- a/src/vfcwrapper/funcinstr.c
+++ b/src/vfcwrapper/funcinstr.c
@@ -24,10 +24,24 @@
  ************************************************************/
 vfc_hashmap_t _vfc_func_map;
 
+// Key of a function in the hash table, different ids with the same hash get
+// different keys
+static size_t vfc_func_table_key(const char *id) {
+  size_t key = vfc_hashmap_str_function(id);
+
+  interflop_function_info_t *function;
+  while ((function = vfc_hashmap_get(_vfc_func_map, key)) != NULL &&
+         strcmp(function->id, id) != 0) {
+    key++;
+  }
+
+  return key;
+}
+
 // Add a function in the hash table
 interflop_function_info_t *
 vfc_func_table_add(interflop_function_info_t function) {
-  size_t key = vfc_hashmap_str_function(function.id);
+  size_t key = vfc_func_table_key(function.id);
 
   interflop_function_info_t *ptr =
       (interflop_function_info_t *)malloc(sizeof(interflop_function_info_t));
@@ -41,9 +55,7 @@ vfc_func_table_add(interflop_function_info_t function) {
 
 // Search a function in the hash table
 interflop_function_info_t *vfc_func_table_get(const char *id) {
-  size_t key = vfc_hashmap_str_function(id);
-
-  return vfc_hashmap_get(_vfc_func_map, key);
+  return vfc_hashmap_get(_vfc_func_map, vfc_func_table_key(id));
 }
 
 // Print the table
@@ -141,14 +153,14 @@ void vfc_enter_function(char *func_name, char isLibraryFunction,
     va_list ap;
     // n is the number of arguments intercepted, each argument
     // is represented by a type ID and a pointer
-    va_start(ap, n);
-
+    // read them again for each backend
     for (int i = 0; i < loaded_backends; i++)
-      if (backends[i].interflop_enter_function)
+      if (backends[i].interflop_enter_function) {
+        va_start(ap, n);
         backends[i].interflop_enter_function(&_vfc_call_stack, contexts[i], n,
                                              ap);
-
-    va_end(ap);
+        va_end(ap);
+      }
   }
 }
 
@@ -162,14 +174,14 @@ void vfc_exit_function(__attribute__((unused)) char *func_name,
     va_list ap;
     // n is the number of arguments intercepted, each argument
     // is represented by a type ID and a pointer
-    va_start(ap, n);
-
+    // read them again for each backend
     for (int i = 0; i < loaded_backends; i++)
-      if (backends[i].interflop_exit_function)
+      if (backends[i].interflop_exit_function) {
+        va_start(ap, n);
         backends[i].interflop_exit_function(&_vfc_call_stack, contexts[i], n,
                                             ap);
-
-    va_end(ap);
+        va_end(ap);
+      }
   }
 
   vfc_call_stack_pop();
-- 
2.43.0


From e5f53ed6037dabb401cd959a7da9b3730b15ff29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:23 +0000
Subject: [PATCH 10/57] fix: no crash in the destructor when the initialization
 stopped early

With function instrumentation, an error before the function table exists
(for instance a log file that cannot be opened) ended in a segmentation
fault in vfc_func_table_quit instead of the failure status.
---
 src/vfcwrapper/funcinstr.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vfcwrapper/funcinstr.c b/src/vfcwrapper/funcinstr.c
index 42e1b69..ff16893 100644
--- a/src/vfcwrapper/funcinstr.c
+++ b/src/vfcwrapper/funcinstr.c
@@ -76,6 +76,11 @@ void _vfc_func_table_print(FILE *f) {
 void vfc_func_table_init() { _vfc_func_map = vfc_hashmap_create(); }
 
 void vfc_func_table_quit() {
+  /* exit may be called before the initialization */
+  if (_vfc_func_map == NULL) {
+    return;
+  }
+
   vfc_hashmap_free(_vfc_func_map);
 
   vfc_hashmap_destroy(_vfc_func_map);
-- 
2.43.0


From 231a94077b1fd6c59d93f85839010ff32a7be244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:48 +0000
Subject: [PATCH 11/57] fix: a stray argument was taken as --precision-binary32

The key of --precision-binary32 was 0, which argp also uses for arguments
that are not options (ARGP_KEY_ARG).
---
 src/backends/interflop-backend-bitmask/interflop_bitmask.c | 2 +-
 src/backends/interflop-backend-mcaint/interflop_mca_int.c  | 2 +-
 src/backends/interflop-backend-mcaquad/interflop_mca.c     | 2 +-
 src/backends/interflop-backend-vprec/interflop_vprec.h     | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/backends/interflop-backend-bitmask/interflop_bitmask.c b/src/backends/interflop-backend-bitmask/interflop_bitmask.c
index 28d1160..d95d52c 100644
--- a/src/backends/interflop-backend-bitmask/interflop_bitmask.c
+++ b/src/backends/interflop-backend-bitmask/interflop_bitmask.c
@@ -57,7 +57,7 @@
 #endif
 
 typedef enum {
-  KEY_PREC_B32,
+  KEY_PREC_B32 = 1, /* 0 is ARGP_KEY_ARG */
   KEY_PREC_B64,
   KEY_MODE = 'm',
   KEY_OPERATOR = 'o',
diff --git a/src/backends/interflop-backend-mcaint/interflop_mca_int.c b/src/backends/interflop-backend-mcaint/interflop_mca_int.c
index f490a2d..2fe7419 100644
--- a/src/backends/interflop-backend-mcaint/interflop_mca_int.c
+++ b/src/backends/interflop-backend-mcaint/interflop_mca_int.c
@@ -52,7 +52,7 @@
 #endif
 
 typedef enum {
-  KEY_PREC_B32,
+  KEY_PREC_B32 = 1, /* 0 is ARGP_KEY_ARG */
   KEY_PREC_B64,
   KEY_ERR_EXP,
   KEY_MODE = 'm',
diff --git a/src/backends/interflop-backend-mcaquad/interflop_mca.c b/src/backends/interflop-backend-mcaquad/interflop_mca.c
index b48f3e9..4c56330 100644
--- a/src/backends/interflop-backend-mcaquad/interflop_mca.c
+++ b/src/backends/interflop-backend-mcaquad/interflop_mca.c
@@ -89,7 +89,7 @@ static const char backend_name[] = "interflop-mcaquad";
 static const char backend_version[] = "1.x-dev";
 
 typedef enum {
-  KEY_PREC_B32,
+  KEY_PREC_B32 = 1, /* 0 is ARGP_KEY_ARG */
   KEY_PREC_B64,
   KEY_ERR_EXP,
   KEY_MODE = 'm',
diff --git a/src/backends/interflop-backend-vprec/interflop_vprec.h b/src/backends/interflop-backend-vprec/interflop_vprec.h
index 8faab94..2ec4af7 100644
--- a/src/backends/interflop-backend-vprec/interflop_vprec.h
+++ b/src/backends/interflop-backend-vprec/interflop_vprec.h
@@ -52,7 +52,7 @@
 #define VPREC_ERR_MODE_DEFAULT vprec_err_mode_rel
 
 typedef enum {
-  KEY_PREC_B32,
+  KEY_PREC_B32 = 1, /* 0 is ARGP_KEY_ARG */
   KEY_PREC_B64,
   KEY_RANGE_B32,
   KEY_RANGE_B64,
-- 
2.43.0


From 02bc12903712a11d9126a16fbc15291c3e0b3ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:56 +0000
Subject: [PATCH 12/57] fix: reject option values that do not fit an int and a
 NaN sparsity

The values were truncated to int before they were checked, so for
instance --precision-binary64=4294967306 was accepted as 10.
---
 .../interflop-backend-bitmask/interflop_bitmask.c   |  9 +++++----
 .../interflop_cancellation.c                        |  5 +++--
 .../interflop-backend-mcaint/interflop_mca_int.c    |  8 ++++----
 .../interflop-backend-mcaquad/interflop_mca.c       | 13 +++++++------
 .../interflop-backend-vprec/interflop_vprec.c       | 10 +++++-----
 5 files changed, 24 insertions(+), 21 deletions(-)

diff --git a/src/backends/interflop-backend-bitmask/interflop_bitmask.c b/src/backends/interflop-backend-bitmask/interflop_bitmask.c
index d95d52c..714c08b 100644
--- a/src/backends/interflop-backend-bitmask/interflop_bitmask.c
+++ b/src/backends/interflop-backend-bitmask/interflop_bitmask.c
@@ -27,6 +27,7 @@
 
 #include <argp.h>
 #include <err.h>
+#include <limits.h>
 #include <math.h>
 #include <mpfr.h>
 #include <stdbool.h>
@@ -549,8 +550,8 @@ static error_t parse_opt(int key, char *arg, struct argp_state *state) {
   case KEY_PREC_B32:
     /* precision for binary32 */
     error = 0;
-    int val = (int)interflop_strtol(arg, &endptr, &error);
-    if (error != 0 || val <= 0) {
+    long val = interflop_strtol(arg, &endptr, &error);
+    if (error != 0 || val <= 0 || val > INT_MAX) {
       logger_error("--%s invalid "
                    "value provided, must be a "
                    "positive integer.",
@@ -562,8 +563,8 @@ static error_t parse_opt(int key, char *arg, struct argp_state *state) {
   case KEY_PREC_B64:
     /* precision for binary64 */
     error = 0;
-    val = (int)interflop_strtol(arg, &endptr, &error);
-    if (error != 0 || val <= 0) {
+    val = interflop_strtol(arg, &endptr, &error);
+    if (error != 0 || val <= 0 || val > INT_MAX) {
       logger_error("--%s invalid "
                    "value provided, must be a "
                    "positive integer.",
diff --git a/src/backends/interflop-backend-cancellation/interflop_cancellation.c b/src/backends/interflop-backend-cancellation/interflop_cancellation.c
index aed1ac1..fb90d54 100644
--- a/src/backends/interflop-backend-cancellation/interflop_cancellation.c
+++ b/src/backends/interflop-backend-cancellation/interflop_cancellation.c
@@ -27,6 +27,7 @@
 
 #include <argp.h>
 #include <err.h>
+#include <limits.h>
 #include <stdbool.h>
 #include <stdint.h>
 #include <stdlib.h>
@@ -219,8 +220,8 @@ static error_t parse_opt(int key, char *arg, struct argp_state *state) {
   case KEY_TOLERANCE:
     /* tolerance */
     error = 0;
-    int val = (int)interflop_strtol(arg, &endptr, &error);
-    if (error != 0 || val < 0) {
+    long val = interflop_strtol(arg, &endptr, &error);
+    if (error != 0 || val < 0 || val > INT_MAX) {
       logger_error("--tolerance invalid value provided, must be a"
                    "positive integer.");
     } else {
diff --git a/src/backends/interflop-backend-mcaint/interflop_mca_int.c b/src/backends/interflop-backend-mcaint/interflop_mca_int.c
index 2fe7419..260d22a 100644
--- a/src/backends/interflop-backend-mcaint/interflop_mca_int.c
+++ b/src/backends/interflop-backend-mcaint/interflop_mca_int.c
@@ -651,7 +651,7 @@ static const struct argp_option options[] = {
 static error_t parse_opt(int key, char *arg, struct argp_state *state) {
   mcaint_context_t *ctx = (mcaint_context_t *)state->input;
   char *endptr = NULL;
-  int val = -1;
+  long val = -1;
   int error = 0;
   float sparsity = -1;
   uint64_t seed = -1;
@@ -659,7 +659,7 @@ static error_t parse_opt(int key, char *arg, struct argp_state *state) {
   case KEY_PREC_B32:
     /* precision for binary32 */
     error = 0;
-    val = (int)interflop_strtol(arg, &endptr, &error);
+    val = interflop_strtol(arg, &endptr, &error);
     if (error != 0 || val != MCAINT_PRECISION_BINARY32_DEFAULT) {
       logger_error("--%s invalid value provided, MCA integer does not support "
                    "custom precisions",
@@ -670,7 +670,7 @@ static error_t parse_opt(int key, char *arg, struct argp_state *state) {
   case KEY_PREC_B64:
     /* precision for binary64 */
     error = 0;
-    val = (int)interflop_strtol(arg, &endptr, &error);
+    val = interflop_strtol(arg, &endptr, &error);
     if (error != 0 || val != MCAINT_PRECISION_BINARY64_DEFAULT) {
       logger_error("--%s invalid value provided, MCA integer does not support "
                    "custom precisions",
@@ -719,7 +719,7 @@ static error_t parse_opt(int key, char *arg, struct argp_state *state) {
     /* sparse perturbations */
     error = 0;
     sparsity = (float)interflop_strtod(arg, &endptr, &error);
-    if (sparsity <= 0 || sparsity > 1) {
+    if (!(sparsity > 0 && sparsity <= 1)) {
       error = 1;
     }
     if (error != 0) {
diff --git a/src/backends/interflop-backend-mcaquad/interflop_mca.c b/src/backends/interflop-backend-mcaquad/interflop_mca.c
index 4c56330..7f406e4 100644
--- a/src/backends/interflop-backend-mcaquad/interflop_mca.c
+++ b/src/backends/interflop-backend-mcaquad/interflop_mca.c
@@ -58,6 +58,7 @@
 
 #include <argp.h>
 #include <err.h>
+#include <limits.h>
 #include <math.h>
 #include <pthread.h>
 #include <stdbool.h>
@@ -773,7 +774,7 @@ static const struct argp_option options[] = {
 static error_t parse_opt(int key, char *arg, struct argp_state *state) {
   mcaquad_context_t *ctx = (mcaquad_context_t *)state->input;
   char *endptr = NULL;
-  int val = -1;
+  long val = -1;
   int error = 0;
   float sparsity = MCAQUAD_SPARSITY_DEFAULT;
   uint64_t seed = MCAQUAD_SEED_DEFAULT;
@@ -782,8 +783,8 @@ static error_t parse_opt(int key, char *arg, struct argp_state *state) {
   case KEY_PREC_B32:
     /* precision for binary32 */
     error = 0;
-    val = (int)interflop_strtol(arg, &endptr, &error);
-    if (error != 0 || val <= 0) {
+    val = interflop_strtol(arg, &endptr, &error);
+    if (error != 0 || val <= 0 || val > INT_MAX) {
       logger_error("--%s invalid value provided, must be a positive integer",
                    key_prec_b32_str);
     } else {
@@ -793,8 +794,8 @@ static error_t parse_opt(int key, char *arg, struct argp_state *state) {
   case KEY_PREC_B64:
     /* precision for binary64 */
     error = 0;
-    val = (int)interflop_strtol(arg, &endptr, &error);
-    if (error != 0 || val <= 0) {
+    val = interflop_strtol(arg, &endptr, &error);
+    if (error != 0 || val <= 0 || val > INT_MAX) {
       logger_error("--%s invalid value provided, must be a positive integer",
                    key_prec_b64_str);
     } else {
@@ -869,7 +870,7 @@ static error_t parse_opt(int key, char *arg, struct argp_state *state) {
     /* sparse perturbations */
     error = 0;
     sparsity = (float)interflop_strtod(arg, &endptr, &error);
-    if (sparsity <= 0) {
+    if (!(sparsity > 0)) {
       error = 1;
     }
     if (error != 0) {
diff --git a/src/backends/interflop-backend-vprec/interflop_vprec.c b/src/backends/interflop-backend-vprec/interflop_vprec.c
index d79eed3..e133653 100644
--- a/src/backends/interflop-backend-vprec/interflop_vprec.c
+++ b/src/backends/interflop-backend-vprec/interflop_vprec.c
@@ -894,7 +894,7 @@ static error_t parse_opt(int key, char *arg, struct argp_state *state) {
   vprec_context_t *ctx = (vprec_context_t *)state->input;
   state->child_inputs[0] = ctx;
   char *endptr = NULL;
-  int val = -1;
+  long val = -1;
   int precision = 0;
   int range = 0;
   int error = 0;
@@ -903,7 +903,7 @@ static error_t parse_opt(int key, char *arg, struct argp_state *state) {
   case KEY_PREC_B32:
     /* precision */
     error = 0;
-    val = (int)interflop_strtol(arg, &endptr, &error);
+    val = interflop_strtol(arg, &endptr, &error);
     if (error != 0 || val < VPREC_PRECISION_BINARY32_MIN) {
       logger_error("--%s invalid value provided, must be a "
                    "positive integer.",
@@ -919,7 +919,7 @@ static error_t parse_opt(int key, char *arg, struct argp_state *state) {
   case KEY_PREC_B64:
     /* precision */
     error = 0;
-    val = (int)interflop_strtol(arg, &endptr, &error);
+    val = interflop_strtol(arg, &endptr, &error);
     if (error != 0 || val < VPREC_PRECISION_BINARY64_MIN) {
       logger_error("--%s invalid value provided, must be a "
                    "positive integer.",
@@ -935,7 +935,7 @@ static error_t parse_opt(int key, char *arg, struct argp_state *state) {
   case KEY_RANGE_B32:
     /* precision */
     error = 0;
-    val = (int)interflop_strtol(arg, &endptr, &error);
+    val = interflop_strtol(arg, &endptr, &error);
     if (error != 0 || val < VPREC_RANGE_BINARY32_MIN) {
       logger_error("--%s invalid value provided, must be a "
                    "positive integer.",
@@ -951,7 +951,7 @@ static error_t parse_opt(int key, char *arg, struct argp_state *state) {
   case KEY_RANGE_B64:
     /* precision */
     error = 0;
-    val = (int)interflop_strtol(arg, &endptr, &error);
+    val = interflop_strtol(arg, &endptr, &error);
     if (error != 0 || val < VPREC_RANGE_BINARY64_MIN) {
       logger_error("--%s invalid value provided, must be a "
                    "positive integer.",
-- 
2.43.0


From 3760cc54aa2db5b5f451f67a9e22ba94f1a30e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:36 +0000
Subject: [PATCH 13/57] fix: ddebug site list: no remains of an older list,
 right child awaited, failures reported

VFC_DDEBUG_GEN did not truncate an existing file, waited for any child of
the program instead of the addr2line it started, took an interrupted wait
for its end, ignored a failing fork, and left the check of the status to an
assertion.
---
 src/vfcwrapper/main.c.in | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/vfcwrapper/main.c.in b/src/vfcwrapper/main.c.in
index 7565c02..0d3165c 100644
--- a/src/vfcwrapper/main.c.in
+++ b/src/vfcwrapper/main.c.in
@@ -167,14 +167,17 @@ vfc_hashmap_t dd_must_instrument;
 vfc_hashmap_t dd_mustnot_instrument;
 
 void ddebug_generate_inclusion(char *dd_generate_path, vfc_hashmap_t map) {
-  int output = open(dd_generate_path, O_WRONLY | O_CREAT, S_IWUSR | S_IRUSR);
+  int output =
+      open(dd_generate_path, O_WRONLY | O_CREAT | O_TRUNC, S_IWUSR | S_IRUSR);
   if (output == -1) {
     logger_error("cannot open DDEBUG_GEN file %s", dd_generate_path);
   }
   for (size_t i = 0; i < map->capacity; i++) {
     if (get_value_at(map->items, i) != 0 && get_value_at(map->items, i) != 1) {
       pid_t pid = fork();
-      if (pid == 0) {
+      if (pid == -1) {
+        logger_error("cannot run " ADDR2LINE_BIN ": %s", strerror(errno));
+      } else if (pid == 0) {
         char addr[19];
         char executable[64];
         snprintf(addr, 19, "%p",
@@ -183,15 +186,26 @@ void ddebug_generate_inclusion(char *dd_generate_path, vfc_hashmap_t map) {
         dup2(output, 1);
         execlp(ADDR2LINE_BIN, ADDR2LINE_PATH, "-fpaCs", "-e", executable, addr,
                NULL);
-        logger_error("error running " ADDR2LINE_BIN);
+        logger_warning("error running " ADDR2LINE_BIN);
+        _exit(EXIT_FAILURE);
       } else {
-        int status;
-        wait(&status);
-        assert(status == 0);
+        /* the program may have other children */
+        int status = 0;
+        pid_t waited;
+        do {
+          waited = waitpid(pid, &status, 0);
+        } while (waited == -1 && errno == EINTR);
+        if (waited != pid || status != 0) {
+          logger_error("error running " ADDR2LINE_BIN
+                       ", DDEBUG_GEN file %s is incomplete",
+                       dd_generate_path);
+        }
       }
     }
   }
-  close(output);
+  if (close(output) == -1) {
+    logger_error("cannot write DDEBUG_GEN file %s", dd_generate_path);
+  }
 }
 
 __attribute__((destructor(0))) static void vfc_atexit(void) {
-- 
2.43.0


From 76dd49929af760d112014ce61804ffddf59198a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:39 +0000
Subject: [PATCH 14/57] fix: ddebug site list: threads recorded their sites in
 the table without synchronization

Concurrent insertions lost or duplicated sites, corrupted the table or
never ended.
---
 src/vfcwrapper/main.c.in | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/vfcwrapper/main.c.in b/src/vfcwrapper/main.c.in
index 0d3165c..0bdaf3c 100644
--- a/src/vfcwrapper/main.c.in
+++ b/src/vfcwrapper/main.c.in
@@ -25,6 +25,7 @@
 #include <fcntl.h>
 #include <math.h>
 #include <printf.h>
+#include <pthread.h>
 #include <stdbool.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -166,6 +167,17 @@ void vfc_hashmap_free(vfc_hashmap_t map);
 vfc_hashmap_t dd_must_instrument;
 vfc_hashmap_t dd_mustnot_instrument;
 
+/* dd_must_instrument is shared by all the threads of the program */
+static pthread_mutex_t dd_record_mutex = PTHREAD_MUTEX_INITIALIZER;
+
+__attribute__((unused)) static void ddebug_record_site(void *addr) {
+  pthread_mutex_lock(&dd_record_mutex);
+  if (dd_must_instrument != NULL) {
+    vfc_hashmap_insert(dd_must_instrument, (size_t)addr, addr);
+  }
+  pthread_mutex_unlock(&dd_record_mutex);
+}
+
 void ddebug_generate_inclusion(char *dd_generate_path, vfc_hashmap_t map) {
   int output =
       open(dd_generate_path, O_WRONLY | O_CREAT | O_TRUNC, S_IWUSR | S_IRUSR);
@@ -222,12 +234,17 @@ __attribute__((destructor(0))) static void vfc_atexit(void) {
       backends[i].interflop_finalize(contexts[i]);
 
 #ifdef DDEBUG
+  vfc_hashmap_t map = dd_must_instrument;
   if (dd_generate_path) {
-    ddebug_generate_inclusion(dd_generate_path, dd_must_instrument);
+    /* other threads may still be running, record no more sites */
+    pthread_mutex_lock(&dd_record_mutex);
+    dd_must_instrument = NULL;
+    pthread_mutex_unlock(&dd_record_mutex);
+    ddebug_generate_inclusion(dd_generate_path, map);
     logger_info("ddebug: generated complete inclusion file at %s\n",
                 dd_generate_path);
   }
-  vfc_hashmap_destroy(dd_must_instrument);
+  vfc_hashmap_destroy(map);
   vfc_hashmap_destroy(dd_mustnot_instrument);
 #endif
 
@@ -613,7 +630,7 @@ __attribute__((constructor(0))) static void vfc_init(void) {
       return operation;                                                        \
     }                                                                          \
   } else if (dd_generate_path) {                                               \
-    vfc_hashmap_insert(dd_must_instrument, (size_t)addr, addr);                \
+    ddebug_record_site(addr);                                                  \
   }
 
 #else
-- 
2.43.0


From 81aaaa88fa6871d4fdb18ae24966abd259ed865d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:12 +0000
Subject: [PATCH 15/57] fix: ddebug filters: a list that cannot be opened or
 read stops the program

A missing or unreadable VFC_DDEBUG_INCLUDE or VFC_DDEBUG_EXCLUDE list was
taken for an empty one, a read error for its end, and the rest of a line
longer than 2047 characters (demangled C++ names) for another line.
---
 src/vfcwrapper/main.c.in | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/vfcwrapper/main.c.in b/src/vfcwrapper/main.c.in
index 0bdaf3c..97ff735 100644
--- a/src/vfcwrapper/main.c.in
+++ b/src/vfcwrapper/main.c.in
@@ -276,22 +276,30 @@ __attribute__((destructor(0))) static void vfc_atexit(void) {
 static void vfc_read_filter_file(const char *dd_filter_path,
                                  vfc_hashmap_t map) {
   FILE *input = fopen(dd_filter_path, "r");
-  if (input) {
-    void *addr;
-    char line[2048];
-    int lineno = 0;
-    while (fgets(line, sizeof line, input)) {
-      lineno++;
-      if (sscanf(line, "%p", &addr) == 1) {
-        vfc_hashmap_insert(map, (size_t)addr + CALL_OP_SIZE,
-                           addr + CALL_OP_SIZE);
-      } else {
-        logger_error(
-            "ddebug: error parsing VFC_DDEBUG_[INCLUDE/EXCLUDE] %s at line %d",
-            dd_filter_path, lineno);
-      }
+  if (input == NULL) {
+    logger_error("ddebug: cannot open VFC_DDEBUG_[INCLUDE/EXCLUDE] %s: %s",
+                 dd_filter_path, strerror(errno));
+  }
+  void *addr;
+  char *line = NULL;
+  size_t len = 0;
+  int lineno = 0;
+  while (getline(&line, &len, input) != -1) {
+    lineno++;
+    if (sscanf(line, "%p", &addr) == 1) {
+      vfc_hashmap_insert(map, (size_t)addr + CALL_OP_SIZE, addr + CALL_OP_SIZE);
+    } else {
+      logger_error(
+          "ddebug: error parsing VFC_DDEBUG_[INCLUDE/EXCLUDE] %s at line %d",
+          dd_filter_path, lineno);
     }
   }
+  if (!feof(input)) {
+    logger_error("ddebug: error reading VFC_DDEBUG_[INCLUDE/EXCLUDE] %s",
+                 dd_filter_path);
+  }
+  free(line);
+  fclose(input);
 }
 #endif
 
-- 
2.43.0


From 95263d758ddbcaf595699e37c4ef94cf05d3e748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:59 +0000
Subject: [PATCH 16/57] fix: probes: a duplicate was not seen when another key
 has the same hash

---
 src/common/vfc_probes.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/common/vfc_probes.c b/src/common/vfc_probes.c
index 5f066ca..b0bacbf 100644
--- a/src/common/vfc_probes.c
+++ b/src/common/vfc_probes.c
@@ -159,11 +159,12 @@ int vfc_probe_kernel(vfc_probes *probes, char *testName, char *varName,
   // Get the key, which is : testName + "," + varName
   char *key = gen_probe_key(testName, varName);
 
-  // Look for a duplicate key
-  vfc_probe_node *oldProbe = (vfc_probe_node *)vfc_hashmap_get(
-      probes->map, vfc_hashmap_str_function(key));
-
-  if (oldProbe != NULL) {
+  // Look for a duplicate key. Different keys can have the same hash: step over
+  // the probes stored under the hash of another key.
+  size_t hash = vfc_hashmap_str_function(key);
+  vfc_probe_node *oldProbe = NULL;
+  while ((oldProbe = (vfc_probe_node *)vfc_hashmap_get(probes->map, hash)) !=
+         NULL) {
     if (strcmp(key, oldProbe->key) == 0) {
       fprintf(stderr,
               "Error [verificarlo]: you have a duplicate error with one of \
@@ -171,6 +172,7 @@ int vfc_probe_kernel(vfc_probes *probes, char *testName, char *varName,
               key);
       exit(1);
     }
+    hash++;
   }
 
   // Insert the element in the hashmap
@@ -181,7 +183,7 @@ int vfc_probe_kernel(vfc_probes *probes, char *testName, char *varName,
   newProbe->mode = (char *)malloc(sizeof(char) * (strlen(mode) + 1));
   strcpy(newProbe->mode, mode);
 
-  vfc_hashmap_insert(probes->map, vfc_hashmap_str_function(key), newProbe);
+  vfc_hashmap_insert(probes->map, hash, newProbe);
 
   return 0;
 }
-- 
2.43.0


From 746510aec3cb99fac1253184e6a5968628fd5d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:59 +0000
Subject: [PATCH 17/57] fix: probes: a CSV file that could not be written in
 full is an error

---
 src/common/vfc_probes.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/common/vfc_probes.c b/src/common/vfc_probes.c
index b0bacbf..d9744ae 100644
--- a/src/common/vfc_probes.c
+++ b/src/common/vfc_probes.c
@@ -257,8 +257,15 @@ int vfc_dump_probes(vfc_probes *probes) {
     }
   }
 
-  fflush(fp);
-  fclose(fp);
+  int failed = fflush(fp) != 0 || ferror(fp);
+  failed = fclose(fp) != 0 || failed;
+  if (failed) {
+    fprintf(stderr,
+            "Error [verificarlo]: impossible to write your probes to the CSV \
+            file (\"%s\")\n",
+            exportPath);
+    exit(1);
+  }
 
   vfc_free_probes(probes);
 
-- 
2.43.0


From 11d74309ef564e724139a6549f125b2054cdc42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:24 +0000
Subject: [PATCH 18/57] fix: VPREC functions: round and profile every element
 of array arguments

Only the first element was rounded, once per element of the array.
---
 ...interflop_vprec_function_instrumentation.c | 30 +++++++++----------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
index 9fd2f4d..126399e 100644
--- a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
+++ b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
@@ -438,7 +438,7 @@ void _init_function_inst_arg(_vfi_argument_data_t *arg, char *arg_id,
 }
 
 void _update_range_bounds(void *raw_value, _vfi_argument_data_t *arg,
-                          int new_flag, enum FTYPES type) {
+                          enum FTYPES type) {
 
   int isnan = 0;
   int isinf = 0;
@@ -463,8 +463,8 @@ void _update_range_bounds(void *raw_value, _vfi_argument_data_t *arg,
   const int min_range = arg->min_range;
   const int max_range = arg->max_range;
   if (!(isnan || isinf)) {
-    arg->min_range = (floor < min_range || new_flag) ? floor : min_range;
-    arg->max_range = (ceil > max_range || new_flag) ? ceil : max_range;
+    arg->min_range = (floor < min_range) ? floor : min_range;
+    arg->max_range = (ceil > max_range) ? ceil : max_range;
   }
 }
 
@@ -644,7 +644,7 @@ void _vfi_enter_function(interflop_function_stack_t *stack, void *context,
       _vfi_print_log_enter(value, function_inst, arg_id, 0, type, ctx);
       _vprec_round_binary_enter(raw_value, exponent_length, mantissa_length,
                                 new_flag, mode_flag, type, context);
-      _update_range_bounds(raw_value, arg, new_flag, type);
+      _update_range_bounds(raw_value, arg, type);
       _vfi_print_log(ctx, "%la\t(%d, %d)\n", *value, mantissa_length,
                      exponent_length);
 
@@ -653,7 +653,7 @@ void _vfi_enter_function(interflop_function_stack_t *stack, void *context,
       _vfi_print_log_enter(raw_value, function_inst, arg_id, 0, type, ctx);
       _vprec_round_binary_enter(raw_value, exponent_length, mantissa_length,
                                 new_flag, mode_flag, type, context);
-      _update_range_bounds(raw_value, arg, new_flag, type);
+      _update_range_bounds(raw_value, arg, type);
       _vfi_print_log(ctx, "%a\t(%d, %d)\n", *value, mantissa_length,
                      exponent_length);
 
@@ -669,9 +669,9 @@ void _vfi_enter_function(interflop_function_stack_t *stack, void *context,
         if (value == NULL) {
           continue;
         }
-        _vprec_round_binary_enter(raw_value, exponent_length, mantissa_length,
+        _vprec_round_binary_enter(value, exponent_length, mantissa_length,
                                   new_flag, mode_flag, type, context);
-        _update_range_bounds(raw_value, arg, new_flag, type);
+        _update_range_bounds(value, arg, type);
         _vfi_print_log(ctx, "%la\t(%d, %d)\n", *value, mantissa_length,
                        exponent_length);
       }
@@ -687,9 +687,9 @@ void _vfi_enter_function(interflop_function_stack_t *stack, void *context,
         if (value == NULL) {
           continue;
         }
-        _vprec_round_binary_enter(raw_value, exponent_length, mantissa_length,
+        _vprec_round_binary_enter(value, exponent_length, mantissa_length,
                                   new_flag, mode_flag, type, context);
-        _update_range_bounds(raw_value, arg, new_flag, type);
+        _update_range_bounds(value, arg, type);
         _vfi_print_log(ctx, "%a\t(%d, %d)\n", *value, mantissa_length,
                        exponent_length);
       }
@@ -782,7 +782,7 @@ void _vfi_exit_function(interflop_function_stack_t *stack, void *context,
       _vfi_print_log_exit(value, function_inst, arg_id, 0, type, ctx);
       _vprec_round_binary_exit(raw_value, exponent_length, mantissa_length,
                                new_flag, mode_flag, type, context);
-      _update_range_bounds(raw_value, arg, new_flag, type);
+      _update_range_bounds(raw_value, arg, type);
 
       _vfi_print_log(ctx, "%la\t(%d,%d)\n", *value, mantissa_length,
                      exponent_length);
@@ -791,7 +791,7 @@ void _vfi_exit_function(interflop_function_stack_t *stack, void *context,
       _vfi_print_log_exit(value, function_inst, arg_id, 0, type, ctx);
       _vprec_round_binary_exit(raw_value, exponent_length, mantissa_length,
                                new_flag, mode_flag, type, context);
-      _update_range_bounds(raw_value, arg, new_flag, type);
+      _update_range_bounds(raw_value, arg, type);
 
       _vfi_print_log(ctx, "%la\t(%d,%d)\n", *value, mantissa_length,
                      exponent_length);
@@ -809,9 +809,9 @@ void _vfi_exit_function(interflop_function_stack_t *stack, void *context,
         }
 
         _vfi_print_log_exit(value, function_inst, arg_id, j, type, ctx);
-        _vprec_round_binary_exit(raw_value, exponent_length, mantissa_length,
+        _vprec_round_binary_exit(value, exponent_length, mantissa_length,
                                  new_flag, mode_flag, type, context);
-        _update_range_bounds(raw_value, arg, new_flag, type);
+        _update_range_bounds(value, arg, type);
 
         _vfi_print_log(ctx, "%la\t(%d,%d)\n", *value, mantissa_length,
                        exponent_length);
@@ -831,9 +831,9 @@ void _vfi_exit_function(interflop_function_stack_t *stack, void *context,
         }
 
         _vfi_print_log_exit(value, function_inst, arg_id, j, type, ctx);
-        _vprec_round_binary_exit(raw_value, exponent_length, mantissa_length,
+        _vprec_round_binary_exit(value, exponent_length, mantissa_length,
                                  new_flag, mode_flag, type, context);
-        _update_range_bounds(raw_value, arg, new_flag, type);
+        _update_range_bounds(value, arg, type);
 
         _vfi_print_log(ctx, "%la\t(%d,%d)\n", *value, mantissa_length,
                        exponent_length);
-- 
2.43.0


From 8ba956cc8da6913c36cdd8701110d37da4a58ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:24 +0000
Subject: [PATCH 19/57] fix: VPREC functions: restore the settings of the
 closest caller which has settings

After a call made by a function without floating point code or below a
library function the settings of the callee stayed in force.
---
 .../interflop_vprec_function_instrumentation.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
index 126399e..d299786 100644
--- a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
+++ b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
@@ -719,13 +719,18 @@ void _vfi_exit_function(interflop_function_stack_t *stack, void *context,
   _vfi_t *function_inst = vfc_hashmap_get(
       ctx->vfi->map, vfc_hashmap_str_function(function_info->id));
 
-  // set internal operations precision with parent function values
-  if (stack->array[stack->top + 1] != NULL) {
-    interflop_function_info_t *parent_info = stack->array[stack->top + 1];
+  // set internal operations precision with the values of the closest caller
+  // which has its own: library functions and functions without floating point
+  // code leave the values of their caller in force
+  if (ctx->vfi->vprec_inst_mode != vprecinst_arg &&
+      ctx->vfi->vprec_inst_mode != vprecinst_none) {
+    for (long i = stack->top + 1; stack->array[i] != NULL; i++) {
+      interflop_function_info_t *parent_info = stack->array[i];
 
-    if (!parent_info->isLibraryFunction && !parent_info->isIntrinsicFunction &&
-        ctx->vfi->vprec_inst_mode != vprecinst_arg &&
-        ctx->vfi->vprec_inst_mode != vprecinst_none) {
+      if (parent_info->isLibraryFunction || parent_info->isIntrinsicFunction ||
+          !(parent_info->useFloat || parent_info->useDouble)) {
+        continue;
+      }
 
       _vfi_t *function_parent = vfc_hashmap_get(
           ctx->vfi->map, vfc_hashmap_str_function(parent_info->id));
@@ -735,6 +740,7 @@ void _vfi_exit_function(interflop_function_stack_t *stack, void *context,
         _set_vprec_range_binary64(function_parent->OpsRange64, ctx);
         _set_vprec_precision_binary32(function_parent->OpsPrec32, ctx);
         _set_vprec_range_binary32(function_parent->OpsRange32, ctx);
+        break;
       }
     }
   }
-- 
2.43.0


From c55424199706d022c89bc93a87ec141c555e2555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:42 +0000
Subject: [PATCH 20/57] fix: VPREC functions: tell call sites apart whose ids
 have the same hash

---
 ...interflop_vprec_function_instrumentation.c | 32 +++++++++++++------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
index d299786..c6dcfc6 100644
--- a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
+++ b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
@@ -292,6 +292,20 @@ int _vfi_scan_output(FILE *fi, _vfi_t *function_ptr, int arg_pos) {
   return nb_token;
 }
 
+// Key of a function in the hashmap, different ids with the same hash get
+// different keys
+static size_t _vfi_key(vprec_context_t *ctx, const char *id) {
+  size_t key = vfc_hashmap_str_function(id);
+
+  _vfi_t *function = NULL;
+  while ((function = vfc_hashmap_get(ctx->vfi->map, key)) != NULL &&
+         interflop_strcmp(function->id, id) != 0) {
+    key++;
+  }
+
+  return key;
+}
+
 // Read and initialize the hashmap from the given file
 void _vfi_read_hasmap(FILE *fin, vprec_context_t *ctx) {
   _vfi_t function;
@@ -323,8 +337,7 @@ void _vfi_read_hasmap(FILE *fin, vprec_context_t *ctx) {
     // insert in the hashmap
     _vfi_t *address = (_vfi_t *)interflop_malloc(sizeof(_vfi_t));
     (*address) = function;
-    vfc_hashmap_insert(ctx->vfi->map, vfc_hashmap_str_function(function.id),
-                       address);
+    vfc_hashmap_insert(ctx->vfi->map, _vfi_key(ctx, function.id), address);
   }
 }
 
@@ -557,8 +570,8 @@ void _vfi_enter_function(interflop_function_stack_t *stack, void *context,
   if (function_info == NULL)
     logger_error("Call stack error\n");
 
-  _vfi_t *function_inst = vfc_hashmap_get(
-      ctx->vfi->map, vfc_hashmap_str_function(function_info->id));
+  _vfi_t *function_inst =
+      vfc_hashmap_get(ctx->vfi->map, _vfi_key(ctx, function_info->id));
 
   // if the function is not in the hashtable
   if (function_inst == NULL) {
@@ -581,8 +594,7 @@ void _vfi_enter_function(interflop_function_stack_t *stack, void *context,
     function_inst->n_calls = 0;
 
     // insert the function in the hashmap
-    vfc_hashmap_insert(ctx->vfi->map,
-                       vfc_hashmap_str_function(function_info->id),
+    vfc_hashmap_insert(ctx->vfi->map, _vfi_key(ctx, function_info->id),
                        function_inst);
   }
 
@@ -716,8 +728,8 @@ void _vfi_exit_function(interflop_function_stack_t *stack, void *context,
     logger_error("Call stack error \n");
   }
 
-  _vfi_t *function_inst = vfc_hashmap_get(
-      ctx->vfi->map, vfc_hashmap_str_function(function_info->id));
+  _vfi_t *function_inst =
+      vfc_hashmap_get(ctx->vfi->map, _vfi_key(ctx, function_info->id));
 
   // set internal operations precision with the values of the closest caller
   // which has its own: library functions and functions without floating point
@@ -732,8 +744,8 @@ void _vfi_exit_function(interflop_function_stack_t *stack, void *context,
         continue;
       }
 
-      _vfi_t *function_parent = vfc_hashmap_get(
-          ctx->vfi->map, vfc_hashmap_str_function(parent_info->id));
+      _vfi_t *function_parent =
+          vfc_hashmap_get(ctx->vfi->map, _vfi_key(ctx, parent_info->id));
 
       if (function_parent != NULL) {
         _set_vprec_precision_binary64(function_parent->OpsPrec64, ctx);
-- 
2.43.0


From 362293e5da843e05ef2c25a399c8cc8610e7b5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:43 +0000
Subject: [PATCH 21/57] fix: VPREC functions: profiles are read completely or
 refused

Ids of more than 255 characters in a profile, or 511 in the program,
overflowed their buffers; a read error or a malformed line ended the
settings silently; call sites with other argument counts than in the
profile were handled outside their arrays.
---
 ...interflop_vprec_function_instrumentation.c | 257 ++++++++++--------
 ...interflop_vprec_function_instrumentation.h |   7 +-
 2 files changed, 145 insertions(+), 119 deletions(-)

diff --git a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
index c6dcfc6..4d640e2 100644
--- a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
+++ b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
@@ -45,27 +45,8 @@ static const char key_input_file_str[] = "prec-input-file";
 static const char key_output_file_str[] = "prec-output-file";
 static const char key_log_file_str[] = "prec-log-file";
 
-#define STRING_BUFF 256
-#define LINE_MAX_SIZE 2048
-
-#define INIT_STRING(A, N)                                                      \
-  for (int i = 0; i < (N); i++)                                                \
-    (A)[i] = (char *)interflop_malloc(sizeof(char) * STRING_BUFF);
-
-#define FREE_STRING(A, N)                                                      \
-  for (int i = 0; i < N; i++) {                                                \
-    if ((A)[i])                                                                \
-      interflop_free((A)[i]);                                                  \
-    (A)[i] = NULL;                                                             \
-  }
-
-const int elt_to_read_header = 12;
-const int elt_to_read_inputs = 7;
-const int elt_to_read_outputs = 7;
-
-char *tokens_header[12];
-char *tokens_inputs[7];
-char *tokens_outputs[7];
+#define ELT_TO_READ_HEADER 12
+#define ELT_TO_READ_ARGUMENT 7
 
 static File *_vprec_log_file = Null;
 
@@ -217,79 +198,104 @@ long _vfi_scan_int(char *token, const char *field) {
   }
   return res;
 }
-int _vfi_scan_line(FILE *fi, char **tokens) {
-  char line[LINE_MAX_SIZE];
-  interflop_fgets(line, LINE_MAX_SIZE, fi);
-  char *tabptr = NULL;
-  char *token = interflop_strtok_r(line, "\t", &tabptr);
-  int nb_token = 0;
-#pragma unroll
-  while (token) {
-    interflop_strcpy(tokens[nb_token], token);
-    nb_token++;
-    token = interflop_strtok_r(NULL, "\t", &tabptr);
+/* Helper function scanning an integer which must be within [min, max] */
+static int _vfi_scan_bounded_int(char *token, const char *field, int min,
+                                 int max) {
+  const long res = _vfi_scan_int(token, field);
+  if (res < min || max < res) {
+    logger_error("Value %ld out of range in hashmap config file (field: %s)\n",
+                 res, field);
   }
-  return nb_token;
+  return (int)res;
 }
 
-int _vfi_scan_header(FILE *fi, _vfi_t *function_ptr) {
-  int nb_token = _vfi_scan_line(fi, tokens_header);
-  if (nb_token != elt_to_read_header) {
-    return nb_token;
+/* Copy of a string, of any length */
+static char *_vfi_copy_string(const char *str) {
+  ISize_t len = 0;
+  while (str[len] != '\0') {
+    len++;
+  }
+  char *copy = (char *)interflop_malloc(len + 1);
+  if (copy == NULL) {
+    logger_error("Out of memory\n");
   }
+  interflop_strcpy(copy, str);
+  return copy;
+}
 
-  interflop_strcpy(function_ptr->id, tokens_header[0]);
+/* Read the next line which is not blank and cut it into at most max tokens, */
+/* which are valid until the next call */
+/* return the number of tokens of the line, 0 at the end of the file */
+static int _vfi_scan_line(FILE *fi, char **line, size_t *size, char **tokens,
+                          int max) {
+  int nb_token = 0;
+  while (nb_token == 0) {
+    if (getline(line, size, fi) < 0) {
+      if (ferror(fi) || !feof(fi)) {
+        logger_error("Error while reading hashmap config file\n");
+      }
+      return 0;
+    }
+    char *tabptr = NULL;
+    char *token = interflop_strtok_r(*line, "\t\r\n", &tabptr);
+    while (token) {
+      if (nb_token < max) {
+        tokens[nb_token] = token;
+      }
+      nb_token++;
+      token = interflop_strtok_r(NULL, "\t\r\n", &tabptr);
+    }
+  }
+  return nb_token;
+}
+
+static void _vfi_scan_header(char **tokens, _vfi_t *function_ptr) {
+  function_ptr->id = _vfi_copy_string(tokens[0]);
   function_ptr->isLibraryFunction =
-      (char)_vfi_scan_int(tokens_header[1], "isLibraryFunction");
+      (char)_vfi_scan_int(tokens[1], "isLibraryFunction");
   function_ptr->isIntrinsicFunction =
-      (char)_vfi_scan_int(tokens_header[2], "isIntrinsicFunction");
-  function_ptr->useFloat = (char)_vfi_scan_int(tokens_header[3], "useFloat");
-  function_ptr->useDouble = (char)_vfi_scan_int(tokens_header[4], "useDouble");
-  function_ptr->OpsPrec64 = (int)_vfi_scan_int(tokens_header[5], "OpsPrec64");
-  function_ptr->OpsRange64 = (int)_vfi_scan_int(tokens_header[6], "OpsRange64");
-  function_ptr->OpsPrec32 = (int)_vfi_scan_int(tokens_header[7], "OpsPrec32");
-  function_ptr->OpsRange32 = (int)_vfi_scan_int(tokens_header[8], "OpsRange32");
+      (char)_vfi_scan_int(tokens[2], "isIntrinsicFunction");
+  function_ptr->useFloat = (char)_vfi_scan_int(tokens[3], "useFloat");
+  function_ptr->useDouble = (char)_vfi_scan_int(tokens[4], "useDouble");
+  function_ptr->OpsPrec64 = _vfi_scan_bounded_int(
+      tokens[5], "OpsPrec64", VPREC_PRECISION_BINARY64_MIN,
+      VPREC_PRECISION_BINARY64_MAX);
+  function_ptr->OpsRange64 =
+      _vfi_scan_bounded_int(tokens[6], "OpsRange64", VPREC_RANGE_BINARY64_MIN,
+                            VPREC_RANGE_BINARY64_MAX);
+  function_ptr->OpsPrec32 = _vfi_scan_bounded_int(
+      tokens[7], "OpsPrec32", VPREC_PRECISION_BINARY32_MIN,
+      VPREC_PRECISION_BINARY32_MAX);
+  function_ptr->OpsRange32 =
+      _vfi_scan_bounded_int(tokens[8], "OpsRange32", VPREC_RANGE_BINARY32_MIN,
+                            VPREC_RANGE_BINARY32_MAX);
   function_ptr->nb_input_args =
-      (int)_vfi_scan_int(tokens_header[9], "nb_input_args");
+      _vfi_scan_bounded_int(tokens[9], "nb_input_args", 0, INT_MAX);
   function_ptr->nb_output_args =
-      (int)_vfi_scan_int(tokens_header[10], "nb_output_args");
-  function_ptr->n_calls = (int)_vfi_scan_int(tokens_header[11], "n_calls");
-
-  return nb_token;
+      _vfi_scan_bounded_int(tokens[10], "nb_output_args", 0, INT_MAX);
+  function_ptr->n_calls =
+      _vfi_scan_bounded_int(tokens[11], "n_calls", 0, INT_MAX);
 }
 
-int _vfi_scan_input(FILE *fi, _vfi_t *function_ptr, int arg_pos) {
-  int nb_token = _vfi_scan_line(fi, tokens_inputs);
-  _vfi_argument_data_t *arg_data = &function_ptr->input_args[arg_pos];
-
-  // tokens[0] == "input:"
-  interflop_strcpy(arg_data->arg_id, tokens_inputs[1]);
-  arg_data->data_type = (short)_vfi_scan_int(tokens_inputs[2], "data_type");
-  arg_data->mantissa_length =
-      (int)_vfi_scan_int(tokens_inputs[3], "mantissa_length");
-  arg_data->exponent_length =
-      (int)_vfi_scan_int(tokens_inputs[4], "exponent_length");
-  arg_data->min_range = (int)_vfi_scan_int(tokens_inputs[5], "min_range");
-  arg_data->max_range = (int)_vfi_scan_int(tokens_inputs[6], "max_range");
-
-  return nb_token;
-}
-
-int _vfi_scan_output(FILE *fi, _vfi_t *function_ptr, int arg_pos) {
-  int nb_token = _vfi_scan_line(fi, tokens_outputs);
-  _vfi_argument_data_t *arg_data = &function_ptr->output_args[arg_pos];
-
-  // tokens[0] == "output:"
-  interflop_strcpy(arg_data->arg_id, tokens_outputs[1]);
-  arg_data->data_type = (short)_vfi_scan_int(tokens_outputs[2], "data_type");
-  arg_data->mantissa_length =
-      (int)_vfi_scan_int(tokens_outputs[3], "mantissa_length");
-  arg_data->exponent_length =
-      (int)_vfi_scan_int(tokens_outputs[4], "exponent_length");
-  arg_data->min_range = (int)_vfi_scan_int(tokens_outputs[5], "min_range");
-  arg_data->max_range = (int)_vfi_scan_int(tokens_outputs[6], "max_range");
-
-  return nb_token;
+static void _vfi_scan_argument(char **tokens, _vfi_argument_data_t *arg_data) {
+  // tokens[0] == "input:" or "output:"
+  arg_data->arg_id = _vfi_copy_string(tokens[1]);
+  arg_data->data_type =
+      (short)_vfi_scan_bounded_int(tokens[2], "data_type", 0, FTYPES_END - 1);
+  const int is_double =
+      (arg_data->data_type == FDOUBLE || arg_data->data_type == FDOUBLE_PTR);
+  arg_data->mantissa_length = _vfi_scan_bounded_int(
+      tokens[3], "mantissa_length",
+      is_double ? VPREC_PRECISION_BINARY64_MIN : VPREC_PRECISION_BINARY32_MIN,
+      is_double ? VPREC_PRECISION_BINARY64_MAX : VPREC_PRECISION_BINARY32_MAX);
+  arg_data->exponent_length = _vfi_scan_bounded_int(
+      tokens[4], "exponent_length",
+      is_double ? VPREC_RANGE_BINARY64_MIN : VPREC_RANGE_BINARY32_MIN,
+      is_double ? VPREC_RANGE_BINARY64_MAX : VPREC_RANGE_BINARY32_MAX);
+  arg_data->min_range =
+      _vfi_scan_bounded_int(tokens[5], "min_range", INT_MIN, INT_MAX);
+  arg_data->max_range =
+      _vfi_scan_bounded_int(tokens[6], "max_range", INT_MIN, INT_MAX);
 }
 
 // Key of a function in the hashmap, different ids with the same hash get
@@ -306,39 +312,64 @@ static size_t _vfi_key(vprec_context_t *ctx, const char *id) {
   return key;
 }
 
+// Read the nb_args lines describing the arguments of a function
+static _vfi_argument_data_t *_vfi_read_arguments(FILE *fin, char **line,
+                                                 size_t *size, int nb_args,
+                                                 const char *kind,
+                                                 const char *id) {
+  // no array without arguments: they are discovered at the first call
+  if (nb_args == 0) {
+    return NULL;
+  }
+
+  _vfi_argument_data_t *args = (_vfi_argument_data_t *)interflop_calloc(
+      nb_args, sizeof(_vfi_argument_data_t));
+  if (args == NULL) {
+    logger_error("Out of memory\n");
+  }
+
+  char *tokens[ELT_TO_READ_ARGUMENT];
+  for (int i = 0; i < nb_args; i++) {
+    if (_vfi_scan_line(fin, line, size, tokens, ELT_TO_READ_ARGUMENT) !=
+            ELT_TO_READ_ARGUMENT ||
+        interflop_strcmp(tokens[0], kind) != 0) {
+      logger_error("Can't read %s arguments of %s\n", kind, id);
+    }
+    _vfi_scan_argument(tokens, &args[i]);
+  }
+
+  return args;
+}
+
 // Read and initialize the hashmap from the given file
 void _vfi_read_hasmap(FILE *fin, vprec_context_t *ctx) {
   _vfi_t function;
+  char *line = NULL;
+  size_t size = 0;
+  char *tokens[ELT_TO_READ_HEADER];
+  int nb_token = 0;
 
-  while (_vfi_scan_header(fin, &function) == 12) {
-    // allocate space for input arguments
-    function.input_args = (_vfi_argument_data_t *)interflop_calloc(
-        function.nb_input_args, sizeof(_vfi_argument_data_t));
-
-    // allocate space for output arguments
-    function.output_args = (_vfi_argument_data_t *)interflop_calloc(
-        function.nb_output_args, sizeof(_vfi_argument_data_t));
-
-    const int elt_to_read = 7;
-    // get input arguments precision
-    for (int i = 0; i < function.nb_input_args; i++) {
-      if (_vfi_scan_input(fin, &function, i) != elt_to_read) {
-        logger_error("Can't read input arguments of %s\n", function.id);
-      }
+  while ((nb_token = _vfi_scan_line(fin, &line, &size, tokens,
+                                    ELT_TO_READ_HEADER)) != 0) {
+    if (nb_token != ELT_TO_READ_HEADER) {
+      logger_error("Can't read function %s in hashmap config file\n",
+                   tokens[0]);
     }
+    _vfi_scan_header(tokens, &function);
 
-    // get output arguments precision
-    for (int i = 0; i < function.nb_output_args; i++) {
-      if (_vfi_scan_output(fin, &function, i) != elt_to_read) {
-        logger_error("Can't read output arguments of %s\n", function.id);
-      }
-    }
+    // get input and output arguments precision
+    function.input_args = _vfi_read_arguments(
+        fin, &line, &size, function.nb_input_args, "input:", function.id);
+    function.output_args = _vfi_read_arguments(
+        fin, &line, &size, function.nb_output_args, "output:", function.id);
 
     // insert in the hashmap
     _vfi_t *address = (_vfi_t *)interflop_malloc(sizeof(_vfi_t));
     (*address) = function;
     vfc_hashmap_insert(ctx->vfi->map, _vfi_key(ctx, function.id), address);
   }
+
+  interflop_free(line);
 }
 
 // Print str in vprec_log_file with the correct offset
@@ -371,10 +402,6 @@ void _vfi_init_context(void *context) {
 
 /* initialize the variables to run vprec function instrumentation */
 void _vfi_init(void *context) {
-  INIT_STRING(tokens_header, elt_to_read_header);
-  INIT_STRING(tokens_inputs, elt_to_read_inputs);
-  INIT_STRING(tokens_outputs, elt_to_read_outputs);
-
   vprec_context_t *ctx = (vprec_context_t *)context;
   /* Initialize the vprec_function_map */
 
@@ -430,16 +457,12 @@ void _vfi_finalize(void *context) {
 
   /* destroy vprec_function_map */
   vfc_hashmap_destroy(ctx->vfi->map);
-
-  FREE_STRING(tokens_header, elt_to_read_header);
-  FREE_STRING(tokens_inputs, elt_to_read_inputs);
-  FREE_STRING(tokens_outputs, elt_to_read_outputs);
 }
 
 void _init_function_inst_arg(_vfi_argument_data_t *arg, char *arg_id,
                              enum FTYPES type) {
   arg->data_type = type;
-  interflop_strcpy(arg->arg_id, arg_id);
+  arg->arg_id = _vfi_copy_string(arg_id);
   arg->min_range = INT_MAX;
   arg->max_range = INT_MIN;
   arg->exponent_length = (type == FDOUBLE || type == FDOUBLE_PTR)
@@ -578,7 +601,7 @@ void _vfi_enter_function(interflop_function_stack_t *stack, void *context,
     function_inst = interflop_malloc(sizeof(_vfi_t));
 
     // initialize the structure
-    interflop_strcpy(function_inst->id, function_info->id);
+    function_inst->id = _vfi_copy_string(function_info->id);
     function_inst->isLibraryFunction = function_info->isLibraryFunction;
     function_inst->isIntrinsicFunction = function_info->isIntrinsicFunction;
     function_inst->useFloat = function_info->useFloat;
@@ -626,6 +649,9 @@ void _vfi_enter_function(interflop_function_stack_t *stack, void *context,
     function_inst->input_args =
         interflop_calloc(nb_args, sizeof(_vfi_argument_data_t));
     function_inst->nb_input_args = nb_args;
+  } else if (nb_args != function_inst->nb_input_args) {
+    logger_error("%s has %d input arguments instead of %d\n", function_inst->id,
+                 nb_args, function_inst->nb_input_args);
   }
 
   // boolean which indicates if arguments should be rounded or not depending on
@@ -770,6 +796,9 @@ void _vfi_exit_function(interflop_function_stack_t *stack, void *context,
     function_inst->output_args =
         interflop_calloc(nb_args, sizeof(_vfi_argument_data_t));
     function_inst->nb_output_args = nb_args;
+  } else if (nb_args != function_inst->nb_output_args) {
+    logger_error("%s has %d output arguments instead of %d\n", function_inst->id,
+                 nb_args, function_inst->nb_output_args);
   }
 
   // boolean which indicates if arguments should be rounded or not depending on
diff --git a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.h b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.h
index 77e8aff..a20c4d2 100644
--- a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.h
+++ b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.h
@@ -25,9 +25,6 @@
 #include "interflop/interflop.h"
 #include "interflop/interflop_stdlib.h"
 
-#define ARG_ID_MAX_LENGTH 128
-#define FUNCTION_ID_MAX_LENGTH 512
-
 /* define instrumentation modes */
 typedef enum {
   vprecinst_arg,
@@ -40,7 +37,7 @@ typedef enum {
 // Metadata of arguments
 typedef struct _vprec_argument_data {
   // Identifier of the argument
-  char arg_id[ARG_ID_MAX_LENGTH];
+  char *arg_id;
   // Data type of the argument 0 is float and 1 is double
   short data_type;
   // Minimum rounded value of the argument
@@ -56,7 +53,7 @@ typedef struct _vprec_argument_data {
 // Metadata of function calls
 typedef struct _vprec_function_instrumentation {
   // Id of the function
-  char id[FUNCTION_ID_MAX_LENGTH];
+  char *id;
   // Indicate if the function is from library
   char isLibraryFunction;
   // Indicate if the function is intrinsic
-- 
2.43.0


From 2972af30392001a1c1613ba6394f7cce9aece1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:58 +0000
Subject: [PATCH 22/57] fix: VPREC functions: one log file per instance, closed
 once

---
 .../interflop_vprec_function_instrumentation.c   | 16 ++++++++--------
 .../interflop_vprec_function_instrumentation.h   |  1 +
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
index 4d640e2..870c2af 100644
--- a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
+++ b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
@@ -48,8 +48,6 @@ static const char key_log_file_str[] = "prec-log-file";
 #define ELT_TO_READ_HEADER 12
 #define ELT_TO_READ_ARGUMENT 7
 
-static File *_vprec_log_file = Null;
-
 /* Setter functions for variables */
 
 void _set_vprec_input_file(const char *input_file, void *context) {
@@ -375,11 +373,11 @@ void _vfi_read_hasmap(FILE *fin, vprec_context_t *ctx) {
 // Print str in vprec_log_file with the correct offset
 #define _vfi_print_log(ctx, _vprec_str, ...)                                   \
   ({                                                                           \
-    if (_vprec_log_file != NULL) {                                             \
+    if (ctx->vfi->log_file != NULL) {                                          \
       for (size_t _vprec_d = 0; _vprec_d < ctx->vfi->vprec_log_depth;          \
            _vprec_d++)                                                         \
-        interflop_fprintf(_vprec_log_file, "\t");                              \
-      interflop_fprintf(_vprec_log_file, _vprec_str, ##__VA_ARGS__);           \
+        interflop_fprintf(ctx->vfi->log_file, "\t");                           \
+      interflop_fprintf(ctx->vfi->log_file, _vprec_str, ##__VA_ARGS__);        \
     }                                                                          \
   })
 
@@ -396,6 +394,7 @@ void _vfi_init_context(void *context) {
   ctx->vfi->vprec_input_file = NULL;
   ctx->vfi->vprec_output_file = NULL;
   ctx->vfi->vprec_log_file = NULL;
+  ctx->vfi->log_file = NULL;
   ctx->vfi->vprec_inst_mode = VPREC_INST_MODE_DEFAULT;
   ctx->vfi->vprec_log_depth = 0;
 }
@@ -422,7 +421,7 @@ void _vfi_init(void *context) {
     int error = 0;
     File *f = interflop_fopen(ctx->vfi->vprec_log_file, "w", &error);
     if (f != NULL) {
-      _vprec_log_file = f;
+      ctx->vfi->log_file = f;
     } else {
       logger_error("Error while opening %s: %s", ctx->vfi->vprec_log_file,
                    interflop_strerror(error));
@@ -448,8 +447,9 @@ void _vfi_finalize(void *context) {
   }
 
   /* close log file */
-  if (_vprec_log_file != NULL) {
-    interflop_fclose(_vprec_log_file);
+  if (ctx->vfi->log_file != NULL) {
+    interflop_fclose(ctx->vfi->log_file);
+    ctx->vfi->log_file = NULL;
   }
 
   /* free vprec_function_map */
diff --git a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.h b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.h
index a20c4d2..5fa26de 100644
--- a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.h
+++ b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.h
@@ -91,6 +91,7 @@ typedef struct {
   const char *vprec_input_file;
   const char *vprec_output_file;
   const char *vprec_log_file;
+  File *log_file;
   vprec_inst_mode vprec_inst_mode;
   ISize_t vprec_log_depth;
 } t_context_vfi;
-- 
2.43.0


From 435aa7a36fcef7e9dd98876e6a307a49a7f56897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:59 +0000
Subject: [PATCH 23/57] fix: VPREC functions: a profile that cannot be written
 in full is an error

---
 .../interflop_vprec_function_instrumentation.c              | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
index 870c2af..98566a5 100644
--- a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
+++ b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
@@ -439,7 +439,11 @@ void _vfi_finalize(void *context) {
     File *f = interflop_fopen(ctx->vfi->vprec_output_file, "w", &error);
     if (f != NULL) {
       _vfi_write_hasmap(f, ctx);
-      interflop_fclose(f);
+      const int failed = ferror((FILE *)f);
+      if (interflop_fclose(f) != 0 || failed) {
+        logger_error("Output file can't be written completely: %s",
+                     ctx->vfi->vprec_output_file);
+      }
     } else {
       logger_error("Output file can't be written: %s",
                    interflop_strerror(error));
-- 
2.43.0


From ff21a6eff0eb9a6634f434ac779af2ab35b1b5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:44 +0000
Subject: [PATCH 24/57] fix: interflop_isnan and interflop_isinf were never
 true

The value ranges of VPREC profiles took NaN and infinities for numbers.
---
 src/interflop-stdlib/interflop_stdlib.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/interflop-stdlib/interflop_stdlib.c b/src/interflop-stdlib/interflop_stdlib.c
index 3b9e312..1ee77a7 100644
--- a/src/interflop-stdlib/interflop_stdlib.c
+++ b/src/interflop-stdlib/interflop_stdlib.c
@@ -142,9 +142,9 @@ float interflop_fpclassifyf(float x) {
   int mant = u.i & FLOAT_GET_PMAN;
   if (exp == 0 && mant == 0) {
     return IFP_ZERO;
-  } else if (exp == FLOAT_EXP_MAX && mant == 0) {
+  } else if (exp == FLOAT_GET_EXP && mant == 0) {
     return IFP_INFINITE;
-  } else if (exp == FLOAT_EXP_MAX && mant != 0) {
+  } else if (exp == FLOAT_GET_EXP && mant != 0) {
     return IFP_NAN;
   } else if (exp == 0 && mant != 0) {
     return IFP_SUBNORMAL;
@@ -159,9 +159,9 @@ double interflop_fpclassifyd(double x) {
   long mant = u.i & DOUBLE_GET_PMAN;
   if (exp == 0 && mant == 0) {
     return IFP_ZERO;
-  } else if (exp == FLOAT_EXP_MAX && mant == 0) {
+  } else if (exp == (long)DOUBLE_GET_EXP && mant == 0) {
     return IFP_INFINITE;
-  } else if (exp == FLOAT_EXP_MAX && mant != 0) {
+  } else if (exp == (long)DOUBLE_GET_EXP && mant != 0) {
     return IFP_NAN;
   } else if (exp == 0 && mant != 0) {
     return IFP_SUBNORMAL;
-- 
2.43.0


From d23686fc4aea67df664209fc24e0d6901d1ae997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:06 +0000
Subject: [PATCH 25/57] fix: MCA: an absolute noise outside the exponent range
 wrapped around to a huge or tiny one

---
 .../interflop-backend-mcaquad/interflop_mca.c | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/backends/interflop-backend-mcaquad/interflop_mca.c b/src/backends/interflop-backend-mcaquad/interflop_mca.c
index 7f406e4..15f343f 100644
--- a/src/backends/interflop-backend-mcaquad/interflop_mca.c
+++ b/src/backends/interflop-backend-mcaquad/interflop_mca.c
@@ -276,7 +276,15 @@ double _noise_binary64(int exp, rng_state_t *rng_state);
 inline double _noise_binary64(const int exp, rng_state_t *rng_state) {
   const double d_rand = get_rand_double01(rng_state, &mcaquad_global_tid) - 0.5;
   binary64 b64 = {.f64 = d_rand};
-  b64.ieee.exponent = b64.ieee.exponent + exp;
+  /* exp comes from the user with absolute errors: do not wrap around */
+  const int64_t exponent = (int64_t)b64.ieee.exponent + exp;
+  if (d_rand == 0 || exponent <= 0) {
+    return 0;
+  }
+  if (exponent > 2 * DOUBLE_EXP_COMP) {
+    return (d_rand > 0) ? __builtin_inf() : -__builtin_inf();
+  }
+  b64.ieee.exponent = exponent;
   return b64.f64;
 }
 
@@ -291,7 +299,15 @@ _Float128 _noise_binary128(const int exp, rng_state_t *rng_state) {
   const _Float128 noise =
       (_Float128)get_rand_double01(rng_state, &mcaquad_global_tid) - 0.5Q;
   binary128 b128 = {.f128 = noise};
-  b128.ieee128.exponent = b128.ieee128.exponent + exp;
+  /* exp comes from the user with absolute errors: do not wrap around */
+  const int64_t exponent = (int64_t)b128.ieee128.exponent + exp;
+  if (noise == 0 || exponent <= 0) {
+    return 0;
+  }
+  if (exponent > 2 * QUAD_EXP_COMP) {
+    return (noise > 0) ? __builtin_inf() : -__builtin_inf();
+  }
+  b128.ieee128.exponent = exponent;
   return b128.f128;
 }
 
-- 
2.43.0


From 7a12fd40d3bfe944e7bbb7aef22f5ba3aac56399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:06 +0000
Subject: [PATCH 26/57] fix: cancellation: the noise on zero and tiny results
 wrapped around to a huge one

---
 .../interflop_cancellation.c                             | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/backends/interflop-backend-cancellation/interflop_cancellation.c b/src/backends/interflop-backend-cancellation/interflop_cancellation.c
index fb90d54..12b4421 100644
--- a/src/backends/interflop-backend-cancellation/interflop_cancellation.c
+++ b/src/backends/interflop-backend-cancellation/interflop_cancellation.c
@@ -113,7 +113,12 @@ void cancellation_pop_seed() { rng_state = __rng_state; }
 static inline double _noise_binary64(const int exp, rng_state_t *rng_state) {
   const double d_rand = get_rand_double01(rng_state, &global_tid) - 0.5;
   binary64 b64 = {.f64 = d_rand};
-  b64.ieee.exponent += exp;
+  /* the noise can be too small for binary64: do not wrap around */
+  const int32_t exponent = (int32_t)b64.ieee.exponent + exp;
+  if (d_rand == 0 || exponent <= 0) {
+    return 0;
+  }
+  b64.ieee.exponent = exponent;
   return b64.f64;
 }
 
@@ -127,7 +132,7 @@ static inline double _noise_binary64(const int exp, rng_state_t *rng_state) {
     /* computes the difference between the max of both operands and the        \
      * exponent of the result to find the size of the cancellation */          \
     int cancellation = max(GET_EXP_FLT(X), GET_EXP_FLT(Y)) - e_z;              \
-    if (cancellation >= TMP_CTX->tolerance) {                                  \
+    if (__builtin_isfinite(*Z) && cancellation >= TMP_CTX->tolerance) {        \
       if (TMP_CTX->warning) {                                                  \
         logger_info("cancellation of size %d detected\n", cancellation);       \
       }                                                                        \
-- 
2.43.0


From 802baae804be229c9fc5f0c06a534bb147648e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:19 +0000
Subject: [PATCH 27/57] fix: MCA: fma in ieee mode was rounded twice

---
 src/backends/interflop-backend-mcaint/interflop_mca_int.c | 8 +++++++-
 src/backends/interflop-backend-mcaquad/interflop_mca.c    | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/backends/interflop-backend-mcaint/interflop_mca_int.c b/src/backends/interflop-backend-mcaint/interflop_mca_int.c
index 260d22a..cb66f96 100644
--- a/src/backends/interflop-backend-mcaint/interflop_mca_int.c
+++ b/src/backends/interflop-backend-mcaint/interflop_mca_int.c
@@ -450,7 +450,13 @@ static void _mcaint_inexact_binary128(_Float128 *qa, void *context) {
       _INEXACT_BINARYN(X, &_B, CTX);                                           \
       _INEXACT_BINARYN(X, &_C, CTX);                                           \
     }                                                                          \
-    PERFORM_TERNARY_OP(OP, _RES, _A, _B, _C);                                  \
+    if (TMP_CTX->mode == mcaint_mode_ieee) {                                   \
+      /* the format of X would round the result twice */                       \
+      PERFORM_TERNARY_OP(OP, _RES, (typeof(A))_A, (typeof(A))_B,               \
+                         (typeof(A))_C);                                       \
+    } else {                                                                   \
+      PERFORM_TERNARY_OP(OP, _RES, _A, _B, _C);                                \
+    }                                                                          \
     if (TMP_CTX->mode == mcaint_mode_rr || TMP_CTX->mode == mcaint_mode_mca) { \
       _INEXACT_BINARYN(X, &_RES, CTX);                                         \
     }                                                                          \
diff --git a/src/backends/interflop-backend-mcaquad/interflop_mca.c b/src/backends/interflop-backend-mcaquad/interflop_mca.c
index 15f343f..200b546 100644
--- a/src/backends/interflop-backend-mcaquad/interflop_mca.c
+++ b/src/backends/interflop-backend-mcaquad/interflop_mca.c
@@ -529,7 +529,13 @@ inline void _mcaquad_inexact_binary128(_Float128 *qa, void *context) {
       _INEXACT_BINARYN(X, &_B, CTX);                                           \
       _INEXACT_BINARYN(X, &_C, CTX);                                           \
     }                                                                          \
-    PERFORM_TERNARY_OP(OP, _RES, _A, _B, _C);                                  \
+    if (TMP_CTX->mode == mcaquad_mode_ieee) {                                  \
+      /* the format of X would round the result twice */                       \
+      PERFORM_TERNARY_OP(OP, _RES, (typeof(A))_A, (typeof(A))_B,               \
+                         (typeof(A))_C);                                       \
+    } else {                                                                   \
+      PERFORM_TERNARY_OP(OP, _RES, _A, _B, _C);                                \
+    }                                                                          \
     if (TMP_CTX->mode == mcaquad_mode_rr ||                                    \
         TMP_CTX->mode == mcaquad_mode_mca) {                                   \
       _INEXACT_BINARYN(X, &_RES, CTX);                                         \
-- 
2.43.0


From 8d346cde4292a8cf8fa4a9edafcc96b33b399dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:22 +0000
Subject: [PATCH 28/57] fix: ddebug filters were freed while other threads use
 them

---
 src/vfcwrapper/main.c.in | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vfcwrapper/main.c.in b/src/vfcwrapper/main.c.in
index 97ff735..7d06d25 100644
--- a/src/vfcwrapper/main.c.in
+++ b/src/vfcwrapper/main.c.in
@@ -234,8 +234,8 @@ __attribute__((destructor(0))) static void vfc_atexit(void) {
       backends[i].interflop_finalize(contexts[i]);
 
 #ifdef DDEBUG
-  vfc_hashmap_t map = dd_must_instrument;
   if (dd_generate_path) {
+    vfc_hashmap_t map = dd_must_instrument;
     /* other threads may still be running, record no more sites */
     pthread_mutex_lock(&dd_record_mutex);
     dd_must_instrument = NULL;
@@ -243,9 +243,9 @@ __attribute__((destructor(0))) static void vfc_atexit(void) {
     ddebug_generate_inclusion(dd_generate_path, map);
     logger_info("ddebug: generated complete inclusion file at %s\n",
                 dd_generate_path);
+    vfc_hashmap_destroy(map);
   }
-  vfc_hashmap_destroy(map);
-  vfc_hashmap_destroy(dd_mustnot_instrument);
+  /* the filters are not freed: other threads may still be using them */
 #endif
 
 #ifdef INST_FUNC
-- 
2.43.0


From f0a9bd8896248a2b48da7aad9afd0bc6120cd1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:13 +0000
Subject: [PATCH 29/57] fix: ddebug: parallel samples were left without a
 recorded result after a failure

---
 src/tools/ddebug/DD_stoch.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tools/ddebug/DD_stoch.py b/src/tools/ddebug/DD_stoch.py
index 7b7c2e5..c445c12 100644
--- a/src/tools/ddebug/DD_stoch.py
+++ b/src/tools/ddebug/DD_stoch.py
@@ -140,11 +140,11 @@ class InterflopTask:
         for run in workToDo:
             self.mkdir(run)
             self.runOneSample(run)
-        for run in workToDo:
-            retVal = self.cmpOneSample(run)
+        # every started sample is compared and recorded, even after a failure
+        retVals = [self.cmpOneSample(run) for run in workToDo]
 
-            if retVal == "FAIL":
-                return self.FAIL
+        if self.FAIL in retVals:
+            return self.FAIL
 
         return self.PASS
 
-- 
2.43.0


From 5012ab974667346111f9c137592a6dab8b4db77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:32 +0000
Subject: [PATCH 30/57] fix: ddebug: DD_DICHO_TAB refused the documented
 integer values

---
 src/tools/ddebug/dd_config.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tools/ddebug/dd_config.py b/src/tools/ddebug/dd_config.py
index 6424bbe..13cf68c 100644
--- a/src/tools/ddebug/dd_config.py
+++ b/src/tools/ddebug/dd_config.py
@@ -93,7 +93,7 @@ class ddConfig:
         )
         self.readOneOption(
             "param_dicho_tab",
-            "int/string",
+            "string/int",
             "DD_DICHO_TAB",
             ["exp", "all", "half", "single"],
         )
@@ -130,6 +130,7 @@ class ddConfig:
                             + str(acceptedValue)
                             + " or be a int value"
                         )
+                        self.failure()
                 else:
                     print(
                         "Error : "
@@ -188,7 +189,7 @@ class ddConfig:
         if self.param_dicho_tab == "half":
             splitTab = [int(math.ceil(self.nbRUN / 2.0))]
         if self.param_dicho_tab in [str(i) for i in range(1, self.nbRUN + 1)]:
-            splitTab = [self.param_dicho_tab]
+            splitTab = [int(self.param_dicho_tab)]
         return splitTab
 
     def get_EnvDoc(self, PREFIX="INTERFLOP"):
-- 
2.43.0


From 3359ccae019ebd1ba4192d2a99bd30897b11ab15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:08 +0000
Subject: [PATCH 31/57] fix: ddebug: the only site of a program was never
 reported

---
 src/tools/ddebug/DD_stoch.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tools/ddebug/DD_stoch.py b/src/tools/ddebug/DD_stoch.py
index c445c12..b076871 100644
--- a/src/tools/ddebug/DD_stoch.py
+++ b/src/tools/ddebug/DD_stoch.py
@@ -420,6 +420,11 @@ class DDStoch(DD.DD):
         if testResult != self.FAIL:
             self.deltaFailedMsg(deltas)
 
+        if len(deltas) == 1:  # nothing to split: is a valid ddmin
+            self.configuration_found("ddmin%d" % (self.index), deltas)
+            self.index += 1
+            return [deltas]
+
         # apply dichotomy
         candidats = self.SsplitDeltas(deltas, dicRunTab, granularity)
         print("Dichotomy split done")
-- 
2.43.0


From a508ad329d817b1abce0ec8ed52e4a988e7f7fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:25 +0000
Subject: [PATCH 32/57] fix: ddebug: a session could not be repeated after an
 interruption

---
 src/tools/ddebug/DD_stoch.py | 41 ++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/src/tools/ddebug/DD_stoch.py b/src/tools/ddebug/DD_stoch.py
index b076871..1afb5a2 100644
--- a/src/tools/ddebug/DD_stoch.py
+++ b/src/tools/ddebug/DD_stoch.py
@@ -39,6 +39,14 @@ def runCmd(cmd, fname, envvars=None):
     return getResult(runCmdAsync(cmd, fname, envvars))
 
 
+def writeFile(fname, lines):
+    """Write LINES to FNAME. An interruption never leaves a partial FNAME."""
+    with open(fname + ".tmp", "w") as f:
+        for line in lines:
+            f.write(line)
+    os.replace(fname + ".tmp", fname)
+
+
 class InterflopTask:
 
     def __init__(self, dirname, refDir, runCmd, cmpCmd, nbRun, maxNbPROC, runEnv):
@@ -60,6 +68,9 @@ class InterflopTask:
         return os.path.join(self.dirname, "dd.run%i" % (i+1))
 
     def mkdir(self, i):
+        # remains of an interrupted sample
+        if os.path.lexists(self.nameDir(i)):
+            self.rmdir(i)
         os.mkdir(self.nameDir(i))
 
     def rmdir(self, i):
@@ -79,8 +90,7 @@ class InterflopTask:
         retval = runCmd([self.cmpCmd, self.refDir, rundir],
                         os.path.join(rundir, "dd.compare"))
 
-        with open(os.path.join(self.dirname, rundir, "returnVal"), "w") as f:
-            f.write(str(retval))
+        writeFile(os.path.join(self.dirname, rundir, "returnVal"), [str(retval)])
         if retval != 0:
             print("FAIL(%d)" % i)
             return self.FAIL
@@ -95,8 +105,11 @@ class InterflopTask:
             self.dirname) if runDir.startswith("dd.run")]
         done = []
         for runDir in listOfDir:
-            status = int(
-                (open(os.path.join(self.dirname, runDir, "returnVal")).readline()))
+            returnVal = os.path.join(self.dirname, runDir, "returnVal")
+            if not os.path.exists(returnVal):
+                # sample interrupted before its end: to compute again
+                continue
+            status = int((open(returnVal).readline()))
             if status != 0:
                 return None
             done += [runDir]
@@ -535,26 +548,22 @@ class DDStoch(DD.DD):
         excludes = self.getDelta0()
         dd = self.getDeltaFileName()
 
-        if include:
-            with open(os.path.join(dirname, dd+".include"), "w") as f:
-                for d in deltas:
-                    f.write(d)
-
         if exclude:
-            with open(os.path.join(dirname, dd+".exclude"), "w") as f:
-                for d in deltas:
-                    excludes.remove(d)
+            for d in deltas:
+                excludes.remove(d)
+            writeFile(os.path.join(dirname, dd+".exclude"), excludes)
 
-                for line in excludes:
-                    f.write(line)
+        if include:
+            writeFile(os.path.join(dirname, dd+".include"), deltas)
 
     def _test(self, deltas, nbRun=None):
         if nbRun is None:
             nbRun = self.config_.get_nbRUN()
 
         dirname = os.path.join(self.prefix_, md5Name(deltas))
-        if not os.path.exists(dirname):
-            os.makedirs(dirname)
+        # the include file is written last
+        if not os.path.exists(os.path.join(dirname, self.getDeltaFileName()+".include")):
+            os.makedirs(dirname, exist_ok=True)
             self.genExcludeIncludeFile(
                 dirname, deltas, include=True, exclude=True)
 
-- 
2.43.0


From 70a8a77ac8a13c2840719ff8035700f70b9a2b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:25 +0000
Subject: [PATCH 33/57] fix: ddebug: sets found by a previous session stayed
 among the results

---
 src/tools/ddebug/DD_stoch.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tools/ddebug/DD_stoch.py b/src/tools/ddebug/DD_stoch.py
index 1afb5a2..34da64c 100644
--- a/src/tools/ddebug/DD_stoch.py
+++ b/src/tools/ddebug/DD_stoch.py
@@ -195,10 +195,17 @@ class DDStoch(DD.DD):
         self.ref_ = os.path.join(self.prefix_, "ref")
 
         prepareOutput(self.ref_)
+        self.removeLinks()
         self.reference()
         self.mergeList()
         self.checkReference()
 
+    def removeLinks(self):
+        """remove the links to the results of a previous session"""
+        for name in os.listdir(self.prefix_):
+            if os.path.islink(os.path.join(self.prefix_, name)):
+                os.remove(os.path.join(self.prefix_, name))
+
     def mergeList(self):
         """merge the file name.$PID into a uniq file called name """
         dirname = self.ref_
-- 
2.43.0


From 564644ed7c33e1cf509e2cdaa9f71dfe54ddd526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:54 +0000
Subject: [PATCH 34/57] fix: vfc_ci: results contained partial data of timed
 out and killed executions

---
 src/tools/ci/test.py | 66 ++++++++++++++++++++++++++++----------------
 1 file changed, 42 insertions(+), 24 deletions(-)

diff --git a/src/tools/ci/test.py b/src/tools/ci/test.py
index 75aa76c..6a36295 100644
--- a/src/tools/ci/test.py
+++ b/src/tools/ci/test.py
@@ -49,10 +49,39 @@ timeout = 600  # For commands execution
 # Helper functions
 
 
-def read_probes_csv(filepath, warnings, execution_data):
+def execute(command):
+    """
+    Run a command until its end. Returns True if it ended by itself (it was not
+    timed out or killed by a signal).
+    """
+
+    try:
+        p = subprocess.Popen(command.split())
+    except OSError as e:
+        print(
+            "Warning [vfc_ci]: execution could not be started (%s)" % e,
+            file=sys.stderr,
+        )
+        return False
+
+    try:
+        p.wait(timeout)
+    except subprocess.TimeoutExpired:
+        print("Warning [vfc_ci]: execution was timed out", file=sys.stderr)
+        p.kill()
+        p.wait()
+
+    return p.returncode >= 0
+
+
+def read_probes_csv(filepath, warnings, execution_data, completed=True):
     """Read a CSV file outputted by vfc_probe as a Pandas dataframe"""
 
     try:
+        if not completed:
+            # Whatever has been written might be partial
+            raise FileNotFoundError(filepath)
+
         results = pd.read_csv(filepath)
 
     except FileNotFoundError:
@@ -203,12 +232,7 @@ def run_non_deterministic(
         temp = tempfile.NamedTemporaryFile()
         os.putenv("VFC_PROBES_OUTPUT", temp.name)
 
-        p = subprocess.Popen(command.split())
-        try:
-            p.wait(timeout)
-        except subprocess.TimeoutExpired:
-            print("Warning [vfc_ci]: execution was timed out", file=sys.stderr)
-            p.kill()
+        completed = execute(command)
 
         execution_data = {
             "executable": executable,
@@ -216,7 +240,9 @@ def run_non_deterministic(
             "repetition": i + 1,
         }
 
-        run_data, run_check_data = read_probes_csv(temp.name, warnings, execution_data)
+        run_data, run_check_data = read_probes_csv(
+            temp.name, warnings, execution_data, completed
+        )
 
         data.append(run_data)
         checks_data.append(run_check_data)
@@ -234,16 +260,13 @@ def run_deterministic(command, executable, backend, deterministic_data, warnings
     temp = tempfile.NamedTemporaryFile()
     os.putenv("VFC_PROBES_OUTPUT", temp.name)
 
-    p = subprocess.Popen(command.split())
-    try:
-        p.wait(timeout)
-    except subprocess.TimeoutExpired:
-        print("Warning [vfc_ci]: execution was timed out", file=sys.stderr)
-        p.kill()
+    completed = execute(command)
 
     execution_data = {"executable": executable, "backend": backend, "repetition": 1}
 
-    run_data, run_checks_data = read_probes_csv(temp.name, warnings, execution_data)
+    run_data, run_checks_data = read_probes_csv(
+        temp.name, warnings, execution_data, completed
+    )
 
     run_data.rename(columns={"values": "value"}, inplace=True)
     run_data["accuracy_threshold"] = run_checks_data["accuracy_threshold"]
@@ -257,14 +280,7 @@ def run_deterministic(command, executable, backend, deterministic_data, warnings
         temp = tempfile.NamedTemporaryFile()
         os.putenv("VFC_PROBES_OUTPUT", temp.name)
 
-        p = subprocess.Popen(command.split())
-        try:
-            p.wait(timeout)
-        except subprocess.TimeoutExpired:
-            print(
-                "Warning [vfc_ci]: reference execution was timed out", file=sys.stderr
-            )
-            p.kill()
+        completed = execute(command)
 
         execution_data = {
             "executable": executable,
@@ -272,7 +288,9 @@ def run_deterministic(command, executable, backend, deterministic_data, warnings
             "repetition": 1,
         }
 
-        reference_run_data = read_probes_csv(temp.name, warnings, execution_data)[0]
+        reference_run_data = read_probes_csv(
+            temp.name, warnings, execution_data, completed
+        )[0]
 
         run_data["reference_value"] = reference_run_data["values"]
         run_data["check"] = run_data.apply(
-- 
2.43.0


From d53faa806ec9e118b1adc2078b6a2446b3d401a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:22 +0000
Subject: [PATCH 35/57] fix: vfc_ci: names and values of probes were
 interpreted as numbers or missing values

---
 src/tools/ci/test.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/tools/ci/test.py b/src/tools/ci/test.py
index 6a36295..17eaaf1 100644
--- a/src/tools/ci/test.py
+++ b/src/tools/ci/test.py
@@ -22,6 +22,7 @@
 # It will also generate a ... .vfcrunh5 file with the results of the run
 
 import calendar
+import csv
 import json
 import os
 
@@ -82,7 +83,19 @@ def read_probes_csv(filepath, warnings, execution_data, completed=True):
             # Whatever has been written might be partial
             raise FileNotFoundError(filepath)
 
-        results = pd.read_csv(filepath)
+        # All columns are text: names must not be interpreted as numbers or
+        # missing values
+        results = pd.read_csv(
+            filepath, dtype=str, keep_default_na=False, quoting=csv.QUOTE_NONE
+        )
+
+        # Fails if the end of the file is missing
+        results["value"] = results["value"].apply(float.fromhex)
+        results["accuracy_threshold"] = results["accuracy_threshold"].apply(
+            float.fromhex
+        )
+        if not results["check_mode"].isin(["none", "absolute", "relative"]).all():
+            raise ValueError("invalid check mode")
 
     except FileNotFoundError:
         print(
@@ -137,13 +150,8 @@ def read_probes_csv(filepath, warnings, execution_data, completed=True):
         warnings.append(execution_data)
 
     # Once the CSV has been opened and validated, return its content
-    results["value"] = results["value"].apply(lambda x: float.fromhex(x))
     results.rename(columns={"value": "values"}, inplace=True)
 
-    results["accuracy_threshold"] = results["accuracy_threshold"].apply(
-        lambda x: float.fromhex(x)
-    )
-
     results["vfc_backend"] = execution_data["backend"]
 
     # Extract accuracy thresholds data
-- 
2.43.0


From 0856cae15526db9ec8cacb8d94708edcb71d3e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:55 +0000
Subject: [PATCH 36/57] fix: vfc_ci: deterministic checks compared values with
 the reference of another probe

---
 src/tools/ci/test.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/tools/ci/test.py b/src/tools/ci/test.py
index 17eaaf1..4d059c8 100644
--- a/src/tools/ci/test.py
+++ b/src/tools/ci/test.py
@@ -281,7 +281,7 @@ def run_deterministic(command, executable, backend, deterministic_data, warnings
     run_data["check_mode"] = run_checks_data["check_mode"]
 
     # If checks are detected, do a reference run (with IEEE backend)
-    if run_data["accuracy_threshold"].sum() != 0:
+    if (run_data["check_mode"] != "none").any():
         temp.close()
 
         os.putenv("VFC_BACKENDS", "libinterflop_ieee.so")
@@ -300,7 +300,14 @@ def run_deterministic(command, executable, backend, deterministic_data, warnings
             temp.name, warnings, execution_data, completed
         )[0]
 
-        run_data["reference_value"] = reference_run_data["values"]
+        # Both runs do not necessarily export the same probes in the same order
+        run_data = run_data.merge(
+            reference_run_data[["test", "variable", "values"]].rename(
+                columns={"values": "reference_value"}
+            ),
+            on=["test", "variable"],
+            how="left",
+        )
         run_data["check"] = run_data.apply(
             lambda x: validate_deterministic_probe(x), axis=1
         )
-- 
2.43.0


From d03ed904465841dd82b8bc490f7e1a593d9f1351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:16 +0000
Subject: [PATCH 37/57] fix: vfc_ci: an interrupted export left a partial
 results file

---
 src/tools/ci/test.py | 71 +++++++++++++++++++++++++++++++-------------
 1 file changed, 50 insertions(+), 21 deletions(-)

diff --git a/src/tools/ci/test.py b/src/tools/ci/test.py
index 4d059c8..5d678fd 100644
--- a/src/tools/ci/test.py
+++ b/src/tools/ci/test.py
@@ -450,6 +450,33 @@ def show_warnings(warnings):
             print("  Repetition: %s" % warnings[i]["repetition"], file=sys.stderr)
 
 
+def export_hdf(filename, **dataframes):
+    """
+    Export dataframes to an HDF5 file, which is either created with all of them
+    or left untouched
+    """
+
+    # The file is built in memory first, since the HDF5 library does not report
+    # all write errors
+    with pd.HDFStore(
+        filename, mode="w", driver="H5FD_CORE", driver_core_backing_store=0
+    ) as store:
+        for key in dataframes:
+            store.put(key, dataframes[key])
+        store.flush()
+        image = store._handle.get_file_image()
+
+    temp = filename + ".tmp"
+
+    try:
+        with open(temp, "wb") as file:
+            file.write(image)
+        os.replace(temp, filename)
+    finally:
+        if os.path.exists(temp):
+            os.remove(temp)
+
+
 ##########################################################################
 
 
@@ -488,23 +515,31 @@ def run(is_git_commit, export_raw_values, dry_run):
     # WARNING : Exporting to HDF5 implicitly requires to install "tables" on the
     # system
 
-    if not dry_run:
-        # Export raw if needed
-        if export_raw_values:
-            data.to_hdf(filename + ".vfcraw.h5", key="data")
-            metadata.to_hdf(filename + ".vfcraw.h5", key="metadata")
-            deterministic_data.to_hdf(filename + ".vfcraw.h5", key="deterministic_data")
-
-        # Export metadata
-        metadata.to_hdf(filename + ".vfcrun.h5", key="metadata")
+    if dry_run:
+        print(
+            "Info [vfc_ci]: The dry run flag was enabled, so no files were "
+            "actually created."
+        )
+        return
 
-        # Export data
-        if not data.empty:
-            del data["values"]
-        data.to_hdf(filename + ".vfcrun.h5", key="data")
+    # Export raw if needed
+    if export_raw_values:
+        export_hdf(
+            filename + ".vfcraw.h5",
+            data=data,
+            metadata=metadata,
+            deterministic_data=deterministic_data,
+        )
 
-        # Export deterministic data
-        deterministic_data.to_hdf(filename + ".vfcrun.h5", key="deterministic_data")
+    # Export metadata, data and deterministic data
+    if not data.empty:
+        del data["values"]
+    export_hdf(
+        filename + ".vfcrun.h5",
+        metadata=metadata,
+        data=data,
+        deterministic_data=deterministic_data,
+    )
 
     # Print termination messages
     print(
@@ -517,9 +552,3 @@ def run(is_git_commit, export_raw_values, dry_run):
             "Info [vfc_ci]: A file containing the raw values has also been "
             "created : %s.vfcraw.h5." % filename
         )
-
-    if dry_run:
-        print(
-            "Info [vfc_ci]: The dry run flag was enabled, so no files were "
-            "actually created."
-        )
-- 
2.43.0


From f271128f4d662f2f65038618cb8dea2846ed21ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:58 +0000
Subject: [PATCH 38/57] fix: vfc_precexp: runs with a large output never ended

Nobody reads the pipe the runs and comparisons were given as standard
output, they blocked once it was full.
---
 src/tools/optimize/precexp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/optimize/precexp.py b/src/tools/optimize/precexp.py
index 3dae93c..722dd6f 100755
--- a/src/tools/optimize/precexp.py
+++ b/src/tools/optimize/precexp.py
@@ -55,7 +55,7 @@ def shell(cmd, newEnv, maxTimeout=None):
     for cmdEntry in cmdSplit:
         cmdNew = cmdNew + " " + cmdEntry.strip()
 
-    proc = subprocess.Popen(cmdNew.split(), stdout=subprocess.PIPE, env=env)
+    proc = subprocess.Popen(cmdNew.split(), stdout=subprocess.DEVNULL, env=env)
 
     try:
         proc.wait(maxTimeout)
-- 
2.43.0


From 8e2dc9959f52c31a9c114f9e04fb22d9f30267d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:58 +0000
Subject: [PATCH 39/57] fix: vfc_precexp: the maximum execution time was
 ignored

It was stored in a local variable, in milliseconds where seconds are
expected, and a program past its time was left running next to the
following one.
---
 src/tools/optimize/precexp.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/tools/optimize/precexp.py b/src/tools/optimize/precexp.py
index 722dd6f..2ae9d4d 100755
--- a/src/tools/optimize/precexp.py
+++ b/src/tools/optimize/precexp.py
@@ -60,7 +60,8 @@ def shell(cmd, newEnv, maxTimeout=None):
     try:
         proc.wait(maxTimeout)
     except subprocess.TimeoutExpired:
-        proc.terminate()
+        proc.kill()
+        proc.wait()
         return 42
 
     return proc.returncode
@@ -319,7 +320,7 @@ def Check(
     if runRetCode != 0:
         return False
 
-    return cmp(cmpPath, reference_dir, current_dir, env)
+    return cmp(cmpPath, reference_dir, current_dir, env, vfc_maxTimeout)
 
 
 def dich_search_operations(
@@ -590,6 +591,8 @@ def search_minimum_arguments(
 
 
 def main():
+    global vfc_maxTimeout
+
     parser = argparse.ArgumentParser(
         description="The vfc_precexp script tries "
         "to minimize the precision for each function "
@@ -629,7 +632,7 @@ def main():
     vfc_vprec_mode = args[0].vprec_mode
     vfc_mode = args[0].mode
     if args[0].maxTimeout != None:
-        vfc_maxTimeout = int(args[0].maxTimeout)
+        vfc_maxTimeout = args[0].maxTimeout / 1000
 
     function_list = args[1]
 
@@ -681,7 +684,7 @@ def main():
     )
 
     # run to create profile file
-    run(runPath, output_dir[0], env)
+    run(runPath, output_dir[0], env, vfc_maxTimeout)
 
     # get dataset
     FunctionsFrame, FunctionsIndex, ArgumentsFrame = getProfile(
-- 
2.43.0


From b8656e24f1b23cef7e734cad0e81017d2d5d6d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:58 +0000
Subject: [PATCH 40/57] fix: vfc_precexp: a failed profile run went unnoticed

The exploration continued with the profile of an earlier exploration, or
ended with a success status.
---
 src/tools/optimize/precexp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tools/optimize/precexp.py b/src/tools/optimize/precexp.py
index 2ae9d4d..ea40513 100755
--- a/src/tools/optimize/precexp.py
+++ b/src/tools/optimize/precexp.py
@@ -105,7 +105,7 @@ def getProfile(file, function_list):
     """get informations from profile file"""
     if not os.path.isfile(file):
         print("error profile file not found")
-        sys.exit()
+        sys.exit(1)
 
     f = open(file, "r")
     Lines = f.readlines()
@@ -684,7 +684,9 @@ def main():
     )
 
     # run to create profile file
-    run(runPath, output_dir[0], env, vfc_maxTimeout)
+    if run(runPath, output_dir[0], env, vfc_maxTimeout) != 0:
+        print("error the profile run failed")
+        sys.exit(1)
 
     # get dataset
     FunctionsFrame, FunctionsIndex, ArgumentsFrame = getProfile(
-- 
2.43.0


From 16f5cb37c9a7a624bec1893c28fe19a778dac0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:58 +0000
Subject: [PATCH 41/57] fix: vfc_precexp: the search of a minimum could go on
 forever

It never ended when the comparison fails even at the full precision. The
search now visits each value at most once, and keeps the smallest
precision it found acceptable, or the one before the search.
---
 src/tools/optimize/precexp.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/tools/optimize/precexp.py b/src/tools/optimize/precexp.py
index ea40513..c73a857 100755
--- a/src/tools/optimize/precexp.py
+++ b/src/tools/optimize/precexp.py
@@ -339,6 +339,7 @@ def dich_search_operations(
 ):
     """Dichotomic research to find the minimum precision for given field"""
 
+    accepted = Operations.at[index, field]
     Operations.at[index, field] = l
 
     if not Check(
@@ -351,8 +352,8 @@ def dich_search_operations(
         Arguments,
         Operations,
     ):
-        flag = 1
-        while flag:
+        l = l + 1
+        while l <= r:
             p = math.floor((r + l) / 2)
             Operations.at[index, field] = p
             if Check(
@@ -365,12 +366,11 @@ def dich_search_operations(
                 Arguments,
                 Operations,
             ):
-                if l >= r:
-                    flag = 0
-                    break
-                r = p
+                accepted = p
+                r = p - 1
             else:
                 l = p + 1
+        Operations.at[index, field] = accepted
 
 
 def search_minimum_operations(
@@ -475,6 +475,7 @@ def dich_search_arguments(
 ):
     """Dichotomic research to find the minimum precision for given field"""
 
+    accepted = Arguments.at[index, field]
     Arguments.at[index, field] = l
 
     # minimize mantissa
@@ -488,8 +489,8 @@ def dich_search_arguments(
         Arguments,
         Operations,
     ):
-        flag = 1
-        while flag:
+        l = l + 1
+        while l <= r:
             p = math.floor((r + l) / 2)
             Arguments.at[index, field] = p
             if Check(
@@ -502,12 +503,11 @@ def dich_search_arguments(
                 Arguments,
                 Operations,
             ):
-                if l >= r:
-                    flag = 0
-                    break
-                r = p
+                accepted = p
+                r = p - 1
             else:
                 l = p + 1
+        Arguments.at[index, field] = accepted
 
 
 def search_minimum_arguments(
-- 
2.43.0


From 702ef36cad6c47741511ca304fae72f5f7824aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:16 +0000
Subject: [PATCH 42/57] fix: vfc_ci: a relative check on a zero reference value
 stopped the whole run

---
 src/tools/ci/test.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/tools/ci/test.py b/src/tools/ci/test.py
index 5d678fd..e44d735 100644
--- a/src/tools/ci/test.py
+++ b/src/tools/ci/test.py
@@ -34,6 +34,7 @@ import sys
 import tempfile
 import time
 
+import numpy as np
 import pandas as pd
 
 from .test_data_processing import data_processing, validate_deterministic_probe
@@ -308,9 +309,14 @@ def run_deterministic(command, executable, backend, deterministic_data, warnings
             on=["test", "variable"],
             how="left",
         )
-        run_data["check"] = run_data.apply(
-            lambda x: validate_deterministic_probe(x), axis=1
-        )
+        # As NumPy numbers, a zero reference value is not a division error
+        with np.errstate(divide="ignore", invalid="ignore"):
+            run_data["check"] = run_data.apply(
+                lambda x: validate_deterministic_probe(
+                    {**x, "reference_value": np.float64(x["reference_value"])}
+                ),
+                axis=1,
+            )
 
     else:
         run_data["reference_value"] = 0
-- 
2.43.0


From f5382730322c50b375e800bdf09514735fcc47bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:59 +0000
Subject: [PATCH 43/57] fix: vfc_precexp: VPREC refused the configurations of
 functions with arguments

The lines of the arguments lacked the minimum and the maximum.
---
 src/tools/optimize/precexp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools/optimize/precexp.py b/src/tools/optimize/precexp.py
index c73a857..d70039f 100755
--- a/src/tools/optimize/precexp.py
+++ b/src/tools/optimize/precexp.py
@@ -287,12 +287,14 @@ def save(Arguments, Operations, File):
             j < arg_index + Operations.at[i, "Ninputs"] + Operations.at[i, "Noutputs"]
         ):
             f.write(
-                "{IO}\t{ArgID}\t{Type}\t{Prec}\t{Range}\n".format(
+                "{IO}\t{ArgID}\t{Type}\t{Prec}\t{Range}\t{Min}\t{Max}\n".format(
                     IO=Arguments.at[j, "IO"],
                     ArgID=Arguments.at[j, "ArgID"],
                     Type=Arguments.at[j, "Type"],
                     Prec=Arguments.at[j, "Prec"],
                     Range=Arguments.at[j, "Range"],
+                    Min=Arguments.at[j, "Min"],
+                    Max=Arguments.at[j, "Max"],
                 )
             )
             j = j + 1
-- 
2.43.0


From d237ccfa539cb1910bb33230658fc8cb7df339cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:59 +0000
Subject: [PATCH 44/57] fix: vfc_precexp: pointer arguments were explored with
 the wrong type

The types are those of the profile: 3 is a float pointer, 4 a double pointer.
---
 src/tools/optimize/precexp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools/optimize/precexp.py b/src/tools/optimize/precexp.py
index d70039f..01d9c9f 100755
--- a/src/tools/optimize/precexp.py
+++ b/src/tools/optimize/precexp.py
@@ -526,7 +526,7 @@ def search_minimum_arguments(
     """Find the minimum precision for a given argument of a function"""
 
     # If is a float or float ptr
-    if Arguments.at[index, "Type"] == 0 or Arguments.at[index, "Type"] == 2:
+    if Arguments.at[index, "Type"] == 0 or Arguments.at[index, "Type"] == 3:
         # minimize mantissa
         dich_search_arguments(
             index,
@@ -559,7 +559,7 @@ def search_minimum_arguments(
         )
 
     # If is a double or double ptr
-    elif Arguments.at[index, "Type"] == 1 or Arguments.at[index, "Type"] == 3:
+    elif Arguments.at[index, "Type"] == 1 or Arguments.at[index, "Type"] == 4:
         # minimize mantissa
         dich_search_arguments(
             index,
-- 
2.43.0


From ad09bc29d3e5af251865a0c7dced7786c8d62394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:59 +0000
Subject: [PATCH 45/57] fix: vfc_precexp: the mode all is called full by VPREC

---
 src/tools/optimize/precexp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/optimize/precexp.py b/src/tools/optimize/precexp.py
index 01d9c9f..d17a9cc 100755
--- a/src/tools/optimize/precexp.py
+++ b/src/tools/optimize/precexp.py
@@ -617,7 +617,7 @@ def main():
     )
     parser.add_argument(
         "--vprec_mode",
-        choices=["ieee", "ib", "ob", "all"],
+        choices=["ieee", "full", "ib", "ob"],
         default="ob",
         help="vprec operating mode",
     )
-- 
2.43.0


From ee55c4a3b108f148bf507af8f33bab37c79ee9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:49 +0000
Subject: [PATCH 46/57] fix: ddebug: vector operations were all taken for sites
 inside the wrapper

With delta-debug, the vector wrappers called the scalar ones, which took
their caller, the vector wrapper itself, for the operation site. The sites of
vector operations were missing from VFC_DDEBUG_GEN lists, which contained
addresses shared by all of them instead, and could not be selected with
VFC_DDEBUG_INCLUDE and VFC_DDEBUG_EXCLUDE.
---
 src/vfcwrapper/main.c.in | 78 +++++++++++++++++++++-------------------
 1 file changed, 42 insertions(+), 36 deletions(-)

diff --git a/src/vfcwrapper/main.c.in b/src/vfcwrapper/main.c.in
index 7d06d25..750fe3a 100644
--- a/src/vfcwrapper/main.c.in
+++ b/src/vfcwrapper/main.c.in
@@ -660,9 +660,9 @@ void interflop_call(interflop_call_id id, ...) {
 }
 
 #define define_arithmetic_wrapper(precision, operation, operator)              \
-  precision _##precision##operation(precision a, precision b) {                \
+  static inline precision _##precision##operation##_backends(precision a,      \
+                                                             precision b) {    \
     precision c = NAN;                                                         \
-    ddebug(operator);                                                          \
     for (unsigned char i = 0; i < loaded_backends; i++) {                      \
       if (backends[i].interflop_##operation##_##precision) {                   \
         backends[i].interflop_##operation##_##precision(a, b, &c,              \
@@ -670,6 +670,10 @@ void interflop_call(interflop_call_id id, ...) {
       }                                                                        \
     }                                                                          \
     return c;                                                                  \
+  }                                                                            \
+  precision _##precision##operation(precision a, precision b) {                \
+    ddebug(operator);                                                          \
+    return _##precision##operation##_backends(a, b);                           \
   }
 
 define_arithmetic_wrapper(float, add, (a + b));
@@ -702,56 +706,58 @@ int _doublecmp(enum FCMP_PREDICATE p, double a, double b) {
 }
 
 /* Arithmetic vector wrappers */
-#define define_vectorized_arithmetic_wrapper(precision, operation, size)       \
+#define define_vectorized_arithmetic_wrapper(precision, operation, operator,   \
+                                             size)                             \
   precision##size _##size##x##precision##operation(const precision##size a,    \
                                                    const precision##size b) {  \
     precision##size c;                                                         \
+    ddebug(operator);                                                          \
                                                                                \
     _Pragma("unroll") for (int i = 0; i < size; i++) {                         \
-      c[i] = _##precision##operation(a[i], b[i]);                              \
+      c[i] = _##precision##operation##_backends(a[i], b[i]);                   \
     }                                                                          \
     return c;                                                                  \
   }
 
 /* Define vector of size 2 */
-define_vectorized_arithmetic_wrapper(float, add, 2);
-define_vectorized_arithmetic_wrapper(float, sub, 2);
-define_vectorized_arithmetic_wrapper(float, mul, 2);
-define_vectorized_arithmetic_wrapper(float, div, 2);
-define_vectorized_arithmetic_wrapper(double, add, 2);
-define_vectorized_arithmetic_wrapper(double, sub, 2);
-define_vectorized_arithmetic_wrapper(double, mul, 2);
-define_vectorized_arithmetic_wrapper(double, div, 2);
+define_vectorized_arithmetic_wrapper(float, add, (a + b), 2);
+define_vectorized_arithmetic_wrapper(float, sub, (a - b), 2);
+define_vectorized_arithmetic_wrapper(float, mul, (a * b), 2);
+define_vectorized_arithmetic_wrapper(float, div, (a / b), 2);
+define_vectorized_arithmetic_wrapper(double, add, (a + b), 2);
+define_vectorized_arithmetic_wrapper(double, sub, (a - b), 2);
+define_vectorized_arithmetic_wrapper(double, mul, (a * b), 2);
+define_vectorized_arithmetic_wrapper(double, div, (a / b), 2);
 
 /* Define vector of size 4 */
-define_vectorized_arithmetic_wrapper(float, add, 4);
-define_vectorized_arithmetic_wrapper(float, sub, 4);
-define_vectorized_arithmetic_wrapper(float, mul, 4);
-define_vectorized_arithmetic_wrapper(float, div, 4);
-define_vectorized_arithmetic_wrapper(double, add, 4);
-define_vectorized_arithmetic_wrapper(double, sub, 4);
-define_vectorized_arithmetic_wrapper(double, mul, 4);
-define_vectorized_arithmetic_wrapper(double, div, 4);
+define_vectorized_arithmetic_wrapper(float, add, (a + b), 4);
+define_vectorized_arithmetic_wrapper(float, sub, (a - b), 4);
+define_vectorized_arithmetic_wrapper(float, mul, (a * b), 4);
+define_vectorized_arithmetic_wrapper(float, div, (a / b), 4);
+define_vectorized_arithmetic_wrapper(double, add, (a + b), 4);
+define_vectorized_arithmetic_wrapper(double, sub, (a - b), 4);
+define_vectorized_arithmetic_wrapper(double, mul, (a * b), 4);
+define_vectorized_arithmetic_wrapper(double, div, (a / b), 4);
 
 /* Define vector of size 8 */
-define_vectorized_arithmetic_wrapper(float, add, 8);
-define_vectorized_arithmetic_wrapper(float, sub, 8);
-define_vectorized_arithmetic_wrapper(float, mul, 8);
-define_vectorized_arithmetic_wrapper(float, div, 8);
-define_vectorized_arithmetic_wrapper(double, add, 8);
-define_vectorized_arithmetic_wrapper(double, sub, 8);
-define_vectorized_arithmetic_wrapper(double, mul, 8);
-define_vectorized_arithmetic_wrapper(double, div, 8);
+define_vectorized_arithmetic_wrapper(float, add, (a + b), 8);
+define_vectorized_arithmetic_wrapper(float, sub, (a - b), 8);
+define_vectorized_arithmetic_wrapper(float, mul, (a * b), 8);
+define_vectorized_arithmetic_wrapper(float, div, (a / b), 8);
+define_vectorized_arithmetic_wrapper(double, add, (a + b), 8);
+define_vectorized_arithmetic_wrapper(double, sub, (a - b), 8);
+define_vectorized_arithmetic_wrapper(double, mul, (a * b), 8);
+define_vectorized_arithmetic_wrapper(double, div, (a / b), 8);
 
 /* Define vector of size 16 */
-define_vectorized_arithmetic_wrapper(float, add, 16);
-define_vectorized_arithmetic_wrapper(float, sub, 16);
-define_vectorized_arithmetic_wrapper(float, mul, 16);
-define_vectorized_arithmetic_wrapper(float, div, 16);
-define_vectorized_arithmetic_wrapper(double, add, 16);
-define_vectorized_arithmetic_wrapper(double, sub, 16);
-define_vectorized_arithmetic_wrapper(double, mul, 16);
-define_vectorized_arithmetic_wrapper(double, div, 16);
+define_vectorized_arithmetic_wrapper(float, add, (a + b), 16);
+define_vectorized_arithmetic_wrapper(float, sub, (a - b), 16);
+define_vectorized_arithmetic_wrapper(float, mul, (a * b), 16);
+define_vectorized_arithmetic_wrapper(float, div, (a / b), 16);
+define_vectorized_arithmetic_wrapper(double, add, (a + b), 16);
+define_vectorized_arithmetic_wrapper(double, sub, (a - b), 16);
+define_vectorized_arithmetic_wrapper(double, mul, (a * b), 16);
+define_vectorized_arithmetic_wrapper(double, div, (a / b), 16);
 
 /* Comparison vector wrappers */
 #define define_vectorized_comparison_wrapper(precision, size)                  \
-- 
2.43.0


From 1f89d3cf8928f6a4f47eb7b3fe01e644de3f7842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:49 +0000
Subject: [PATCH 47/57] fix: ddebug: instrumented casts ignored the delta-debug
 filters

With --inst-cast, casts were neither listed in VFC_DDEBUG_GEN files nor
filtered: they were perturbed whatever VFC_DDEBUG_INCLUDE and
VFC_DDEBUG_EXCLUDE said.
---
 src/vfcwrapper/main.c.in | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vfcwrapper/main.c.in b/src/vfcwrapper/main.c.in
index 750fe3a..fd1207a 100644
--- a/src/vfcwrapper/main.c.in
+++ b/src/vfcwrapper/main.c.in
@@ -799,6 +799,7 @@ define_arithmetic_fma_wrapper(double);
 
 float _doubletofloatcast(double a) {
   float b;
+  ddebug((float)a);
   for (unsigned int i = 0; i < loaded_backends; i++) {
     if (backends[i].interflop_cast_double_to_float) {
       backends[i].interflop_cast_double_to_float(a, &b, contexts[i]);
-- 
2.43.0


From a9145d3ff8b20adf3712dd3b842d00b3e5114a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:25 +0000
Subject: [PATCH 48/57] fix: ddebug: with a single site, check that nothing
 deviates without it

A program that deviates from the reference even when no site is perturbed was
answered with that site; say so instead, as with several sites.
---
 src/tools/ddebug/DD_stoch.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/tools/ddebug/DD_stoch.py b/src/tools/ddebug/DD_stoch.py
index 34da64c..b52e4f3 100644
--- a/src/tools/ddebug/DD_stoch.py
+++ b/src/tools/ddebug/DD_stoch.py
@@ -440,10 +440,8 @@ class DDStoch(DD.DD):
         if testResult != self.FAIL:
             self.deltaFailedMsg(deltas)
 
-        if len(deltas) == 1:  # nothing to split: is a valid ddmin
-            self.configuration_found("ddmin%d" % (self.index), deltas)
-            self.index += 1
-            return [deltas]
+        if len(deltas) == 1:  # nothing to split
+            return self.SRDDMin(deltas, SrunTab)
 
         # apply dichotomy
         candidats = self.SsplitDeltas(deltas, dicRunTab, granularity)
-- 
2.43.0


From 896ef75ca484a7a915379debef48af329d2a236d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:33 +0000
Subject: [PATCH 49/57] fix: driver: options containing a single quote were
 changed on their way to the compiler

shell_escape put the argument between single quotes without escaping the
quotes inside it: -DC='x' reached the compiler as -DC=x.
---
 verificarlo.in.in | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verificarlo.in.in b/verificarlo.in.in
index c9be680..3408b9b 100644
--- a/verificarlo.in.in
+++ b/verificarlo.in.in
@@ -23,6 +23,7 @@ from __future__ import print_function
 
 import argparse
 import os
+import shlex
 import subprocess
 import sys
 import tempfile
@@ -125,7 +126,7 @@ def is_llvm_bitcode(name):
 
 def shell_escape(argument):
     # prevents argument expansion in shell call
-    return "'" + argument + "'"
+    return shlex.quote(argument)
 
 
 def parse_extra_args(args):
-- 
2.43.0


From 1ed467e15896a6a7413f86f9d09104c8517f786e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:56 +0000
Subject: [PATCH 50/57] fix: driver: object files of a compile-and-link command
 overwrote each other

Compiling and linking in one command wrote the object of dir/x.c to dir/x.o:
two sources with the same stem, or two concurrent commands sharing a source,
linked the wrong object, an existing x.o was lost and the file remained.
These objects are intermediate files and become temporary ones.
---
 verificarlo.in.in | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/verificarlo.in.in b/verificarlo.in.in
index 3408b9b..83c5037 100644
--- a/verificarlo.in.in
+++ b/verificarlo.in.in
@@ -186,7 +186,7 @@ def compile_vfcwrapper(source, output, args, emit_llvm=False):
     shell(cmd, verbose=args.show_cmd)
 
 
-def linker_mode(sources, options, libraries, output, args):
+def linker_mode(objects, options, libraries, output, args):
     if args.prism_backend:
         vfcwrapper_o = ""
         if args.prism_backend_dispatch == "dynamic":
@@ -205,7 +205,7 @@ def linker_mode(sources, options, libraries, output, args):
         ).name
         compile_vfcwrapper(vfcwrapper, vfcwrapper_o, args)
 
-    sources = " ".join([os.path.splitext(s)[0] + ".o" for s in sources])
+    objects = " ".join(objects)
     interflop_libs = " ".join(
         ["-linterflop_stdlib", "-linterflop_hashmap", "-linterflop_logger"]
     )
@@ -220,12 +220,12 @@ def linker_mode(sources, options, libraries, output, args):
 
     if args.static:
         cmd = (
-            f"{output} {sources} {options} {libraries} {vfcwrapper_o} "
+            f"{output} {objects} {options} {libraries} {vfcwrapper_o} "
             f" -static -lgmp -lm -ldl {interflop_stdlib_flags} "
         )
     else:
         cmd = (
-            f"{output} {sources} {options} {libraries} {vfcwrapper_o} "
+            f"{output} {objects} {options} {libraries} {vfcwrapper_o} "
             f" {mcalib_options} -ldl {interflop_stdlib_flags} "
         )
 
@@ -321,7 +321,16 @@ def apply_mca_instrumentation_pass(
     )
 
 
-def compiler_mode(sources, options, output, args):
+def get_object_name(source, args, link):
+    """return the name of the object file of source; an object that is only
+    needed for the link is a temporary file, like the other intermediate files"""
+    basename = os.path.splitext(source)[0]
+    if link:
+        return get_tmp_filename(basename, ".o", args).name
+    return basename + ".o"
+
+
+def compiler_mode(sources, options, output, args, link=False):
     extra_args = "-static " if args.static else "-fPIC "
     ir_ext = "ll" if args.emit_llvm or args.save_temps else "bc"
 
@@ -331,8 +340,13 @@ def compiler_mode(sources, options, output, args):
     else:
         vfcwrapper_ir = None
 
+    objects = []
     for source in sources:
         basename = os.path.splitext(source)[0]
+        cmd_output = output
+        if not output:
+            objects.append(get_object_name(source, args, link))
+            cmd_output = "-o " + objects[-1]
         ir = get_tmp_filename(basename, f".1.{ir_ext}", args)
         ins = get_tmp_filename(basename, f".2.{ir_ext}", args)
 
@@ -342,11 +356,7 @@ def compiler_mode(sources, options, output, args):
         debug = " -g " if args.inst_func or args.ddebug else ""
 
         if is_assembly(source):
-            if not output:
-                basename_output = "-o " + basename + ".o"
-            else:
-                basename_output = output
-            compile_only([source], " -c " + options, basename_output, args)
+            compile_only([source], " -c " + options, cmd_output, args)
             continue
 
         # Compile to ir (fortran uses flang, c uses clang)
@@ -394,8 +404,6 @@ def compiler_mode(sources, options, output, args):
             ir, ins, vfcwrapper_ir, extra_args, selectfunction, args
         )
 
-        cmd_output = output if output else " -o " + basename + ".o"
-
         if not args.emit_llvm:
             # Produce object file
             shell(
@@ -410,6 +418,8 @@ def compiler_mode(sources, options, output, args):
                 verbose=args.show_cmd,
             )
 
+    return objects
+
 
 def parse_args():
     parser = NoPrefixParser(
@@ -532,8 +542,8 @@ def main():
     else:
         if len(sources) == 0 and len(llvm_options) == 0:
             fail("no input files")
-        compiler_mode(sources, llvm_options, "", args)
-        linker_mode(sources, llvm_options, libraries, output, args)
+        objects = compiler_mode(sources, llvm_options, "", args, link=True)
+        linker_mode(objects, llvm_options, libraries, output, args)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 28f7ae4176081ea529db1378e8a6cb5f8316c964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:44 +0000
Subject: [PATCH 51/57] fix: vfc_ci setup fails when a push is rejected instead
 of announcing success

---
 src/tools/ci/setup.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tools/ci/setup.py b/src/tools/ci/setup.py
index 6b27517..aac0862 100644
--- a/src/tools/ci/setup.py
+++ b/src/tools/ci/setup.py
@@ -128,7 +128,7 @@ def run(git_host):
     gen_workflow(git_host, dev_branch_name, ci_branch_name, repo)
     repo.git.add(".")
     repo.index.commit("[auto] Set up Verificarlo CI on this branch")
-    repo.remote(name="origin").push()
+    repo.remote(name="origin").push().raise_if_error()
 
     # Create the CI branch (orphan branch with a readme on it)
     # (see : https://github.com/gitpython-developers/GitPython/issues/615)
@@ -143,7 +143,9 @@ def run(git_host):
         "[auto] Create the Verificarlo CI branch for %s" % dev_branch_name,
         parent_commits=None,
     )
-    repo.remote(name="origin").push(refspec="%s:%s" % (ci_branch_name, ci_branch_name))
+    repo.remote(name="origin").push(
+        refspec="%s:%s" % (ci_branch_name, ci_branch_name)
+    ).raise_if_error()
 
     # Force checkout back to the original (dev) branch
     repo.git.checkout(dev_branch_name, force=True)
-- 
2.43.0


From dd321ab2947066cff4bc07a0f84b27f532df4c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:44 +0000
Subject: [PATCH 52/57] fix: vfc_ci setup commits only its own files and never
 leaves the dev branch

'git add .' committed and pushed the user's untracked files, and a failure
while the CI branch was checked out left the user on that branch with
README.md overwritten. The CI branch commit is now built in a temporary
index, without touching the work tree.
---
 src/tools/ci/setup.py | 44 ++++++++++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/src/tools/ci/setup.py b/src/tools/ci/setup.py
index aac0862..0410c34 100644
--- a/src/tools/ci/setup.py
+++ b/src/tools/ci/setup.py
@@ -21,6 +21,7 @@
 # Helper script to set up Verificarlo CI on the current branch
 
 import os
+import tempfile
 
 import git
 from jinja2 import Environment, FileSystemLoader
@@ -30,7 +31,7 @@ from jinja2 import Environment, FileSystemLoader
 # Helper functions
 
 
-def gen_readme(dev_branch, ci_branch):
+def gen_readme(dev_branch, ci_branch, filename):
     # Init template loader
     path = os.path.dirname(os.path.abspath(__file__))
     env = Environment(loader=FileSystemLoader(path))
@@ -40,7 +41,7 @@ def gen_readme(dev_branch, ci_branch):
     render = template.render(dev_branch=dev_branch, ci_branch=ci_branch)
 
     # Write template
-    with open("README.md", "w") as fh:
+    with open(filename, "w") as fh:
         fh.write(render)
 
 
@@ -87,6 +88,8 @@ def gen_workflow(git_host, dev_branch, ci_branch, repo):
         with open(filename, "w") as fh:
             fh.write(render)
 
+    return filename
+
 
 ##########################################################################
 
@@ -125,31 +128,42 @@ def run(git_host):
     # Commit the workflow on the current (dev) branch
 
     ci_branch_name = "vfc_ci_%s" % dev_branch_name
-    gen_workflow(git_host, dev_branch_name, ci_branch_name, repo)
-    repo.git.add(".")
+    workflow = gen_workflow(git_host, dev_branch_name, ci_branch_name, repo)
+    # Only the workflow: other untracked files belong to the user
+    repo.index.add([workflow])
     repo.index.commit("[auto] Set up Verificarlo CI on this branch")
     repo.remote(name="origin").push().raise_if_error()
 
-    # Create the CI branch (orphan branch with a readme on it)
-    # (see : https://github.com/gitpython-developers/GitPython/issues/615)
+    # Create the CI branch (orphan branch with a readme on it) with an index of
+    # its own: the dev branch stays checked out, so neither the user's files nor
+    # the work tree depend on the next steps
+
+    with tempfile.TemporaryDirectory() as tmp:
+        readme = os.path.join(tmp, "README.md")
+        gen_readme(dev_branch_name, ci_branch_name, readme)
+        blob = repo.git.hash_object("-w", readme)
 
-    repo.head.reference = git.Head(repo, "refs/heads/" + ci_branch_name)
+        index = {"GIT_INDEX_FILE": os.path.join(tmp, "index")}
+        repo.git.update_index(
+            "--add", "--cacheinfo", "100644,%s,README.md" % blob, env=index
+        )
+        tree = repo.git.write_tree(env=index)
 
-    repo.index.remove(["*"])
-    gen_readme(dev_branch_name, ci_branch_name)
-    repo.index.add(["README.md"])
+    parents = []
+    if ci_branch_name in repo.heads:
+        parents = ["-p", ci_branch_name]
 
-    repo.index.commit(
+    commit = repo.git.commit_tree(
+        tree,
+        *parents,
+        "-m",
         "[auto] Create the Verificarlo CI branch for %s" % dev_branch_name,
-        parent_commits=None,
     )
+    repo.create_head(ci_branch_name, commit, force=True)
     repo.remote(name="origin").push(
         refspec="%s:%s" % (ci_branch_name, ci_branch_name)
     ).raise_if_error()
 
-    # Force checkout back to the original (dev) branch
-    repo.git.checkout(dev_branch_name, force=True)
-
     # Print termination messages
 
     print(
-- 
2.43.0


From 8391aa436588c723f045363210e5cedf8f7647c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:44 +0000
Subject: [PATCH 53/57] fix: vfc_vtk works with Python 3.9 and later
 (Element.copy was removed)

---
 src/tools/vtk/__main__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools/vtk/__main__.py b/src/tools/vtk/__main__.py
index 9757a09..03a648f 100644
--- a/src/tools/vtk/__main__.py
+++ b/src/tools/vtk/__main__.py
@@ -22,6 +22,7 @@
 
 
 import argparse
+import copy
 import io
 import os
 import shutil
@@ -103,7 +104,7 @@ def merge_vtu(output_vtu, vfc_dirs, vtu_filename, args):
 
         # original element
         original = output.find(xpath)
-        accuracy = original.copy()
+        accuracy = copy.deepcopy(original)
 
         # update the output_vtu with the mean
         if args.mean:
-- 
2.43.0


From 0153a1cb91663d02e15ca781e197bb420ced9fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:44 +0000
Subject: [PATCH 54/57] fix: vfc_vtk -r copies the reference output directory

---
 src/tools/vtk/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/vtk/__main__.py b/src/tools/vtk/__main__.py
index 03a648f..97a8972 100644
--- a/src/tools/vtk/__main__.py
+++ b/src/tools/vtk/__main__.py
@@ -144,7 +144,7 @@ def postprocess(verificarlo_dir, output_dir, args):
 
     # Prepare reference output
     if args.r:
-        shutil.copyfile(args.r, output_dir)
+        shutil.copytree(args.r, output_dir)
     else:
         # Use first vtu file as base for the merge
         shutil.copytree(dirs[0], output_dir)
-- 
2.43.0


From d7868ca3068727801df6ceeacc9f975cae3ccf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:44 +0000
Subject: [PATCH 55/57] fix: vfc_vtk reports the accuracy of values with a
 negative mean

---
 src/tools/vtk/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/vtk/__main__.py b/src/tools/vtk/__main__.py
index 97a8972..4bdd023 100644
--- a/src/tools/vtk/__main__.py
+++ b/src/tools/vtk/__main__.py
@@ -97,7 +97,7 @@ def merge_vtu(output_vtu, vfc_dirs, vtu_filename, args):
         if args.std:
             s = std
         else:
-            s = -np.log10(std / mean)
+            s = -np.log10(std / np.abs(mean))
             s[np.isnan(s)] = 0.0
             s[s < 0.0] = 0.0
             s[s > 17.0] = 17.0
-- 
2.43.0


From 44797e20f3f8efd79fba1da22f4048c498562a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:44 +0000
Subject: [PATCH 56/57] fix: vfc_vtk does not drop the files missing in the
 first trace it finds

---
 src/tools/vtk/__main__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tools/vtk/__main__.py b/src/tools/vtk/__main__.py
index 4bdd023..e14d47a 100644
--- a/src/tools/vtk/__main__.py
+++ b/src/tools/vtk/__main__.py
@@ -149,8 +149,9 @@ def postprocess(verificarlo_dir, output_dir, args):
         # Use first vtu file as base for the merge
         shutil.copytree(dirs[0], output_dir)
 
-    # find the list of vtu files in first verificarlo trace
-    vtus = [os.path.basename(f) for f in find_vtu(dirs[0])]
+    # find the list of vtu files in the verificarlo traces: a file that one of
+    # the traces misses is an error, whichever trace is found first
+    vtus = sorted({os.path.basename(f) for d in dirs for f in find_vtu(d)})
 
     for vtu in vtus:
         output_vtu = os.path.join(output_dir, vtu)
-- 
2.43.0


From 16b6befb6f45948d9c16fadc8737958c6ceaee19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:44 +0000
Subject: [PATCH 57/57] fix: vfc_vtk handles several pieces and sections with
 the same array names

---
 src/tools/vtk/__main__.py | 37 ++++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/src/tools/vtk/__main__.py b/src/tools/vtk/__main__.py
index e14d47a..a1819ce 100644
--- a/src/tools/vtk/__main__.py
+++ b/src/tools/vtk/__main__.py
@@ -72,22 +72,23 @@ def merge_vtu(output_vtu, vfc_dirs, vtu_filename, args):
     # open output file
     output = ET.parse(output_vtu)
 
-    # find names of float32 DataArray nodes
-    names = []
-    for c in output.findall(".//DataArray[@type='Float32']"):
-        names.append(c.get("Name"))
-
-    for name in names:
-        rows = []
-        xpath = ".//DataArray[@type='Float32'][@Name='{}']".format(name)
-
+    # find the float32 DataArray nodes; they are identified by their position,
+    # pieces and sections of a file may use the same names
+    xpath = ".//DataArray[@type='Float32']"
+    originals = output.findall(xpath)
+    names = [c.get("Name") for c in originals]
+    parents = {c: p for p in output.iter() for c in p}
+
+    # the same nodes in each verificarlo trace
+    traces = []
+    for d in vfc_dirs:
+        inp = ET.parse(os.path.join(d, vtu_filename)).findall(xpath)
+        assert [c.get("Name") for c in inp] == names
+        traces.append(inp)
+
+    for i, (name, original) in enumerate(zip(names, originals)):
         # for each verificarlo trace extract data as a numpy double array
-        for d in vfc_dirs:
-            vtu_path = os.path.join(d, vtu_filename)
-            inp = ET.parse(vtu_path)
-            c = inp.find(xpath)
-            assert c is not None
-            rows.append(np.fromstring(c.text, np.float64, sep=" "))
+        rows = [np.fromstring(t[i].text, np.float64, sep=" ") for t in traces]
 
         # compute the mean and significant digits across MCA traces
         mat = np.stack(rows)
@@ -102,8 +103,6 @@ def merge_vtu(output_vtu, vfc_dirs, vtu_filename, args):
             s[s < 0.0] = 0.0
             s[s > 17.0] = 17.0
 
-        # original element
-        original = output.find(xpath)
         accuracy = copy.deepcopy(original)
 
         # update the output_vtu with the mean
@@ -115,11 +114,11 @@ def merge_vtu(output_vtu, vfc_dirs, vtu_filename, args):
         accuracy.text = np_to_string(s)
 
         # retrieve parent
-        parent = output.find(xpath + "/..")
+        parent = parents[original]
         if parent.tag != "Points":
             insert_in = parent
         else:
-            insert_in = output.find(".//PointData")
+            insert_in = parents[parent].find("PointData")
 
         # insert it as a sibling
         insert_in.insert(0, accuracy)
-- 
2.43.0

